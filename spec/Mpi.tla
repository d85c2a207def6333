-------------------------------- MODULE Mpi ---------------------------------
(* Message passing with trees. One event is one exchange: all messages and   *)
(* receives of a point-to-point scenario, or one collective over all ranks.  *)
EXTENDS Tree, Integers, FiniteSets
Num == INSTANCE Num
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexB(b) == HexD[(b \div 16) + 1] \o HexD[(b % 16) + 1]
RECURSIVE HexOf(_)
HexOf(bs) == IF bs = <<>> THEN "" ELSE HexB(bs[1]) \o HexOf(Tail(bs))
(* the bytes of a small whole number of type t                               *)
Abs(i) == IF i < 0 THEN -i ELSE i
Enc(t, i) == LET n == [neg |-> i < 0, m |-> [k \in 1..20 |-> (Abs(i) \div Num!Pow2[k - 1]) % 2], e |-> 0] IN
             HexOf(IF t \in Num!Ints THEN Num!EncInt(Num!W(t), n) ELSE Num!EncFloat(t, n))
(* ---- point to point                                                       *)
Same(m, r) == m.src = r.src /\ m.dst = r.dst /\ m.tag = r.tag
(* messages that were sent with the same envelope arrive in the order sent   *)
Matched(e, i) ==
  LET r == e.recvs[i]
      k == Cardinality({j \in 1..(i - 1) : Same(e.recvs[j], r)})
      ms == SelectSeq(e.msgs, LAMBDA m : Same(m, r))
  IN ms[k + 1]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
OkP2p(e) ==
  /\ \A i \in 1..Len(e.msgs) : e.msgs[i].after = e.msgs[i].tree
  \* what keeps its type and size is written where it is
  /\ \A i \in 1..Len(e.recvs) : e.recvs[i].moved = <<>>
  /\ IF ~e.any
     THEN \A i \in 1..Len(e.recvs) : e.recvs[i].post = Update(e.recvs[i].pre, Matched(e, i).tree)
     ELSE \* any source, any tag: some order of arrival that keeps each sender's order
          \E p \in Perms(Len(e.recvs)) :
             /\ \A i, j \in 1..Len(e.recvs) : (i < j /\ e.msgs[p[i]].src = e.msgs[p[j]].src) => p[i] < p[j]
             /\ \A i \in 1..Len(e.recvs) : e.recvs[i].post = Update(e.recvs[i].pre, e.msgs[p[i]].tree)
(* ---- collectives                                                          *)
Red(f, a, b) == CASE f = "sum" -> a + b [] f = "prod" -> a * b
                  [] f = "min" -> IF a < b THEN a ELSE b [] f = "max" -> IF a > b THEN a ELSE b
RECURSIVE RedTo(_, _, _, _)
RedTo(e, f, i, r) == IF r = 1 THEN e.iv[1][i] ELSE Red(f, RedTo(e, f, i, r - 1), e.iv[r][i])
Reduced(e) == LET t == e.send[1].t IN
              [e.send[1] EXCEPT !.v = [i \in 1..Len(e.iv[1]) |-> Enc(t, RedTo(e, e.f, i, Len(e.iv)))]]
Gathered(e) == [LT EXCEPT !.ch = e.send]
IsLeaf(t) == t.k = "d"
(* a compatible leaf is filled in place, anything else takes the root's tree *)
BcSchema(d, s) == IF IsLeaf(d) /\ IsLeaf(s) THEN Update(d, s) ELSE s
Ranks(e) == 1..Len(e.pre)
Want(e, r) ==
  CASE e.op = "reduce" -> IF r = e.root THEN Update(e.pre[r], Reduced(e)) ELSE e.pre[r]
    [] e.op = "all_reduce" -> Update(e.pre[r], Reduced(e))
    [] e.op \in {"gather", "gather_schema"} -> IF r = e.root THEN Gathered(e) ELSE e.pre[r]
    [] e.op \in {"all_gather", "all_gather_schema"} -> Gathered(e)
    [] e.op = "broadcast" -> Update(e.pre[r], e.pre[e.root])
    [] e.op = "broadcast_schema" -> IF r = e.root THEN e.pre[r] ELSE BcSchema(e.pre[r], e.pre[e.root])
InPlace == {"reduce", "all_reduce", "broadcast"}
OkColl(e) == (e.op \in InPlace => \A r \in Ranks(e) : e.moved[r] = <<>>) /\ \A r \in Ranks(e) : e.sent[r] = e.send[r] /\ e.post[r] = Want(e, r)
Valid(e) == IF e.op = "p2p" THEN OkP2p(e) ELSE OkColl(e)
Show(e) == IF e.op = "p2p" THEN IF e.any THEN <<>> ELSE [i \in 1..Len(e.recvs) |-> Update(e.recvs[i].pre, Matched(e, i).tree)]
               ELSE [r \in Ranks(e) |-> Want(e, r)]
=============================================================================
