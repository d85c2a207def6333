-------------------------------- MODULE Diff --------------------------------
(* What diff, diff_compatible, compatible and equals answer for two trees.   *)
(* Trees: [k, nm, ch, t, v, f, o, s, x, en]; v: element bytes (hex), f: the  *)
(* elements of floating point leaves times 16.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SInts == {"int8", "int16", "int32", "int64"}
UInts == {"uint8", "uint16", "uint32", "uint64"}
Floats == {"float32", "float64"}
Has(nd, x) == \E i \in 1..Len(nd.nm) : nd.nm[i] = x
Child(nd, x) == nd.ch[CHOOSE i \in 1..Len(nd.nm) : nd.nm[i] = x]
Abs(x) == IF x < 0 THEN -x ELSE x
\* the characters before the terminating zero
RECURSIVE Chars(_)
Chars(v) == IF v = <<>> \/ Head(v) = "00" THEN <<>> ELSE <<Head(v)>> \o Chars(Tail(v))
\* integers of different width: sign or zero extension of the bytes, compared as hex digits
HexPairs == [q \in 0..255 |-> q]
RECURSIVE DropZ(_, _)
\* significant digits of a little-endian hex string: drop trailing (most significant) fill bytes
DropZ(h, fill) == IF Len(h) > 2 /\ SubSeq(h, Len(h) - 1, Len(h)) = fill
                  THEN DropZ(SubSeq(h, 1, Len(h) - 2), fill) ELSE h
Neg(t, h) == t \in SInts /\ SubSeq(h, Len(h) - 1, Len(h) - 1) \in {"8", "9", "a", "b", "c", "d", "e", "f"}
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
\* the 64 bit pattern of an integer element
Wide(t, h) == h \o Rep(IF Neg(t, h) THEN "ff" ELSE "00", (16 - Len(h)) \div 2)
IntEq(ta, ha, tb, hb) == Wide(ta, ha) = Wide(tb, hb)

TypeName(nd) == CASE nd.k = "o" -> "object" [] nd.k = "l" -> "list" [] nd.k = "e" -> "empty" [] OTHER -> nd.t
RelaxOK(a, b) == /\ a.k = "d" /\ b.k = "d"
                 /\ a.t \in SInts \cup UInts /\ b.t \in SInts \cup UInts
                 /\ IntEq(a.t, a.v[1], b.t, b.v[1])
\* eps is in units of 1/32, values in units of 1/16
Close(x, y, eps) == 2 * Abs(x - y) <= eps
ElemsDiffer(a, b, eps) ==
    IF a.t \in Floats THEN \E i \in 1..Len(a.v) : ~Close(a.f[i], b.f[i], eps)
    ELSE \E i \in 1..Len(a.v) : a.v[i] # b.v[i]
LeafDiff(a, b, eps) ==
    IF a.t = "char8_str"
    THEN CASE a.v = <<>> /\ b.v = <<>> -> FALSE
           [] a.v = <<>> \/ b.v = <<>> -> TRUE
           [] OTHER -> Chars(a.v) # Chars(b.v)
    ELSE Len(a.v) # Len(b.v) \/ ElemsDiffer(a, b, eps)
LeafDiffC(a, b, eps) ==
    IF a.t = "char8_str"
    THEN CASE a.v = <<>> /\ b.v = <<>> -> FALSE
           [] a.v = <<>> \/ b.v = <<>> -> TRUE
           [] OTHER -> LET x == Chars(a.v) y == Chars(b.v) IN
                       Len(x) > Len(y) \/ SubSeq(y, 1, Len(x)) # x
    ELSE Len(a.v) > Len(b.v) \/ ElemsDiffer(a, b, eps)

RECURSIVE D(_, _, _, _), DC(_, _, _, _)
\* is there a difference?
D(a, b, eps, rx) ==
    IF TypeName(a) # TypeName(b) THEN ~(rx /\ RelaxOK(a, b))
    ELSE CASE a.k = "e" -> FALSE
           [] a.k = "o" -> \/ \E i \in 1..Len(a.nm) : ~Has(b, a.nm[i])
                           \/ \E i \in 1..Len(b.nm) : ~Has(a, b.nm[i])
                           \/ \E i \in 1..Len(a.nm) : Has(b, a.nm[i]) /\ D(a.ch[i], Child(b, a.nm[i]), eps, rx)
           [] a.k = "l" -> \/ Len(a.ch) # Len(b.ch)
                           \/ \E i \in 1..Min2(Len(a.ch), Len(b.ch)) : D(a.ch[i], b.ch[i], eps, rx)
           [] OTHER -> LeafDiff(a, b, eps)
\* does b fail to provide everything a has?
DC(a, b, eps, rx) ==
    IF TypeName(a) # TypeName(b) THEN ~(rx /\ RelaxOK(a, b))
    ELSE CASE a.k = "e" -> FALSE
           [] a.k = "o" -> \/ \E i \in 1..Len(a.nm) : ~Has(b, a.nm[i])
                           \/ \E i \in 1..Len(a.nm) : Has(b, a.nm[i]) /\ DC(a.ch[i], Child(b, a.nm[i]), eps, rx)
           [] a.k = "l" -> \/ Len(a.ch) > Len(b.ch)
                           \/ \E i \in 1..Min2(Len(a.ch), Len(b.ch)) : DC(a.ch[i], b.ch[i], eps, rx)
           [] OTHER -> LeafDiffC(a, b, eps)

\* the report: which parts are valid, extra (only here) or missing (only there)
B(x) == IF x THEN "true" ELSE "false"
Idx(lo, hi) == [i \in 1..Max2(0, hi - lo) |-> ToString(lo + i - 1)]
I0 == [valid |-> "?", extra |-> <<>>, missing |-> <<>>, nm |-> <<>>, diff |-> <<>>, value |-> <<>>]
RECURSIVE Info(_, _, _, _, _)
Info(a, b, eps, rx, full) ==
    LET dif(x, y) == IF full THEN D(x, y, eps, rx) ELSE DC(x, y, eps, rx)
        base == [I0 EXCEPT !.valid = B(~dif(a, b))]
    IN  IF TypeName(a) # TypeName(b) THEN base
        ELSE CASE a.k = "o" ->
                    LET both == SelectSeq(a.nm, LAMBDA x : Has(b, x)) IN
                    [base EXCEPT !.extra = SelectSeq(a.nm, LAMBDA x : ~Has(b, x)),
                                 !.missing = IF full THEN SelectSeq(b.nm, LAMBDA x : ~Has(a, x)) ELSE <<>>,
                                 !.nm = both,
                                 !.diff = [i \in 1..Len(both) |-> Info(Child(a, both[i]), Child(b, both[i]), eps, rx, full)]]
               [] a.k = "l" ->
                    [base EXCEPT !.extra = Idx(Len(b.ch), Len(a.ch)),
                                 !.missing = IF full THEN Idx(Len(a.ch), Len(b.ch)) ELSE <<>>,
                                 !.diff = [i \in 1..Min2(Len(a.ch), Len(b.ch)) |-> Info(a.ch[i], b.ch[i], eps, rx, full)]]
               [] a.k = "d" /\ a.t \in Floats /\ (IF full THEN Len(a.v) = Len(b.v) ELSE Len(a.v) <= Len(b.v)) ->
                    [base EXCEPT !.value = [i \in 1..Len(a.v) |-> a.f[i] - b.f[i]]]
               [] OTHER -> base

\* compatible: everything b has in common with a fits into a's data
RECURSIVE Compat(_, _), Equal(_, _)
Compat(a, b) ==
    IF TypeName(a) # TypeName(b) THEN FALSE
    ELSE CASE a.k = "o" -> \A i \in 1..Len(b.nm) : Has(a, b.nm[i]) => Compat(Child(a, b.nm[i]), b.ch[i])
           [] a.k = "l" -> Len(a.ch) >= Len(b.ch) /\ \A i \in 1..Len(b.ch) : Compat(a.ch[i], b.ch[i])
           [] a.k = "e" -> TRUE
           [] OTHER -> Len(a.v) >= Len(b.v)
Equal(a, b) ==
    IF TypeName(a) # TypeName(b) THEN FALSE
    ELSE CASE a.k = "o" -> /\ \A i \in 1..Len(b.nm) : Has(a, b.nm[i]) /\ Equal(Child(a, b.nm[i]), b.ch[i])
                           /\ \A i \in 1..Len(a.nm) : Has(b, a.nm[i])
           [] a.k = "l" -> Len(a.ch) = Len(b.ch) /\ \A i \in 1..Len(b.ch) : Equal(a.ch[i], b.ch[i])
           [] a.k = "e" -> TRUE
           [] OTHER -> Len(a.v) = Len(b.v) /\ a.o = b.o /\ a.s = b.s /\ a.en = b.en

Expect(e) ==
    [diff |-> D(e.a, e.b, e.eps, e.relax), diffc |-> DC(e.a, e.b, e.eps, e.relax),
     info |-> Info(e.a, e.b, e.eps, e.relax, TRUE), infoc |-> Info(e.a, e.b, e.eps, e.relax, FALSE),
     compat |-> Compat(e.a, e.b), scompat |-> Compat(e.a, e.b), equals |-> Equal(e.a, e.b)]
\* laws of the answers, checked on every pair
Laws(e) ==
    LET r == Expect(e) IN
    /\ ~D(e.a, e.a, 0, FALSE) /\ ~DC(e.b, e.b, 0, FALSE)
    /\ Equal(e.a, e.a) /\ Compat(e.b, e.b)
    /\ r.diff = D(e.b, e.a, e.eps, e.relax)      \* symmetric
    /\ ~r.diff => ~r.diffc
    /\ r.equals => r.compat
Valid(e) == e.out = Expect(e) /\ Laws(e)
Show(e) == Expect(e)
=============================================================================
