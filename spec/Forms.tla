------------------------------- MODULE Forms -------------------------------
(* Typed entry points of the C++ and C interfaces: one abstract "set" and    *)
(* one abstract "get" stand for all of them.  Caller memory and the memory   *)
(* of a leaf the destination held before are blocks of equally wide slots;   *)
(* a description (n, a, b) selects slots a, a+b, ... of a block.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sel(blk, n, a, b) == [i \in 1..n |-> blk[a + b*(i-1) + 1]]
PutSel(blk, n, a, b, vs) == [j \in 1..Len(blk) |-> IF \E i \in 1..n : a + b*(i-1) + 1 = j
                                                   THEN vs[CHOOSE i \in 1..n : a + b*(i-1) + 1 = j] ELSE blk[j]]
Zero(v) == CASE Len(v) = 2 -> "00" [] Len(v) = 4 -> "0000" [] Len(v) = 8 -> "00000000" [] OTHER -> "0000000000000000"
ZeroSel(blk, n, a, b) == PutSel(blk, n, a, b, [i \in 1..n |-> Zero(blk[1])])
Vals(e) == Sel(e.buf, e.n, e.a, e.b)
\* a leaf of the same type with at least as many elements is written in place
InPlace(e) == ~e.ext /\ e.k # "D" /\ e.pk = "same" /\ e.pn >= e.n
ExpSet(e) ==
  LET vs == Vals(e) IN
  IF e.ext THEN [t |-> e.t, n |-> e.n, a |-> e.a, b |-> e.b, en |-> e.en, at |-> "buf", isext |-> TRUE, v |-> vs, buf |-> e.buf, prior |-> e.pbuf, rest |-> TRUE,
                 v2 |-> Sel(e.fl, e.n, e.a, e.b), buf3 |-> ZeroSel(e.fl, e.n, e.a, e.b)]
  ELSE IF InPlace(e)
  THEN LET pr == PutSel(e.pbuf, e.n, e.pa, e.pb, vs) IN
       [t |-> e.t, n |-> e.pn, a |-> e.pa, b |-> e.pb, en |-> "default", at |-> "prior", isext |-> TRUE, v |-> Sel(pr, e.pn, e.pa, e.pb), buf |-> e.buf, prior |-> pr, rest |-> TRUE,
        v2 |-> Sel(pr, e.pn, e.pa, e.pb), buf3 |-> e.fl]
  \* data described by a type or schema (k = "D") is copied in the described layout, all else compactly
  ELSE [t |-> e.t, n |-> e.n, a |-> IF e.k = "D" THEN e.a ELSE 0, b |-> IF e.k = "D" THEN e.b ELSE 1, en |-> "default", at |-> "own", isext |-> FALSE, v |-> vs, buf |-> e.buf, prior |-> e.pbuf, rest |-> TRUE, v2 |-> vs, buf3 |-> e.fl]
\* where a pointer getter points: the first element, or (k = "b") the start of the data
ExpGet(e) == [v |-> CASE e.k = "a" -> Vals(e) [] e.k = "b" -> <<e.buf[1]>> [] OTHER -> <<Vals(e)[1]>>,
              at |-> IF e.k = "p" THEN e.a ELSE 0, same |-> TRUE]
\* a getter of another type than the leaf's is refused: a warning, and zero, no address or an empty view
ExpWrong(e) == [v |-> IF e.k = "s" THEN <<Zero(e.buf[1])>> ELSE <<>>, at |-> IF e.k = "p" THEN 0-1 ELSE 0, warned |-> TRUE, same |-> TRUE]
Exp(e) == CASE e.op = "set" -> ExpSet(e) [] e.op = "get" -> ExpGet(e) [] e.op = "wrong" -> ExpWrong(e)
Wrong(e) == {f \in DOMAIN Exp(e) : e.out[f] # Exp(e)[f]}
\* copying a node (k = "N", see NodeModel.tla): the values, compactly, in whatever memory
Valid(e) == \/ Wrong(e) = {}
            \/ e.op = "set" /\ e.ext /\ e.k = "v" /\ e.n = 0 /\ Wrong(e) = {"at"}
            \/ e.k = "N" /\ LET x == e.out IN x.t = e.t /\ x.n = e.n /\ x.a = 0 /\ x.b = 1 /\ x.v = Vals(e) /\ x.v2 = Vals(e) /\ x.buf = e.buf /\ x.buf3 = e.fl /\ x.rest
                            /\ x.at \in {"own", "prior"} /\ (x.at = "own" => x.prior = e.pbuf)
Show(e) == [call |-> e.f, kind |-> e.k, ext |-> (e.op = "set" /\ e.ext), wrong |-> Wrong(e), expected |-> Exp(e)]
=============================================================================
