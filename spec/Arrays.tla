------------------------------- MODULE Arrays -------------------------------
(* Typed views (DataArray, DataAccessor) of strided memory and the Node      *)
(* conversions.  A view is [t, o, s, n, mem]: type, offset, stride, count    *)
(* and the bytes of the whole memory block it lies in.                       *)
EXTENDS Num
Elem(a, i) == SubSeq(a.mem, a.o + a.s*(i-1) + 1, a.o + a.s*(i-1) + W(a.t))
Elems(a) == [i \in 1..a.n |-> Elem(a, i)]
\* memory after elements 1..Len(vals) were written
RECURSIVE Put(_, _, _)
Put(a, i, vals) == IF vals = <<>> THEN a.mem
                   ELSE LET p == a.o + a.s*(i-1) w == W(a.t) IN
                        Put([a EXCEPT !.mem = SubSeq(@, 1, p) \o Head(vals) \o SubSeq(@, p + w + 1, Len(@))], i + 1, Tail(vals))
ConvAll(t, vs, u) == [i \in 1..Len(vs) |-> Conv(t, vs[i], u)]
Take(vs, n) == SubSeq(vs, 1, IF n < Len(vs) THEN n ELSE Len(vs))
RECURSIVE SumSmall(_, _)
SumSmall(t, vs) == IF vs = <<>> THEN 0 ELSE Small(t, Head(vs)) + SumSmall(t, Tail(vs))
Cnt(vs, x) == Cardinality({i \in 1..Len(vs) : vs[i] = x})
Lowest(t, vs, x) == (\E i \in 1..Len(vs) : vs[i] = x) /\ \A i \in 1..Len(vs) : ~Less(t, vs[i], x)
Highest(t, vs, x) == (\E i \in 1..Len(vs) : vs[i] = x) /\ \A i \in 1..Len(vs) : ~Less(t, x, vs[i])
IntNum(x) == LET a == IF x < 0 THEN -x ELSE x IN [neg |-> x < 0, m |-> [i \in 1..24 |-> (a \div Pow2[i-1]) % 2], e |-> 0]
Log2(n) == CHOOSE k \in 0..8 : 2^k = n
\* statistics over the values as elements of type t
StatsOK(t, vs, o) ==
    /\ Lowest(t, vs, o.min) /\ Highest(t, vs, o.max)
    /\ Small(t, o.sum) = SumSmall(t, vs)
    /\ Len(vs) \in {1, 2, 4, 8} => o.mean = EncFloat("float64", [IntNum(SumSmall(t, vs)) EXCEPT !.e = -4 - Log2(Len(vs))])
    /\ o.count = Cnt(vs, vs[o.pick])

\* expected memory after a writing call
Mem(e) ==
    LET d == e.d IN
    CASE e.op = "set_element" -> Put(d, e.i, <<Conv(e.t, e.v[1], d.t)>>)
      [] e.op = "set_values" -> Put(d, 1, ConvAll(e.t, Take(e.v, d.n), d.t))
      [] e.op = "set_array" -> Put(d, 1, ConvAll(e.a.t, Take(Elems(e.a), d.n), d.t))
      \* the accessor converts its elements to e.t first
      [] e.op = "set_accessor" -> Put(d, 1, ConvAll(e.t, ConvAll(e.a.t, Take(Elems(e.a), d.n), e.t), d.t))
      [] e.op = "fill" -> Put(d, 1, [i \in 1..d.n |-> Conv(e.t, e.v[1], d.t)])
      [] OTHER -> d.mem
Num16(s) == s   \* strings carry 16 * value
Ret(e) ==
    LET d == e.d IN
    CASE e.op = "read" -> ConvAll(d.t, Elems(d), e.t)
      [] e.op = "compact" -> Elems(d)
      [] e.op = "to_scalar" -> <<Conv(d.t, Elem(d, 1), e.t)>>
      \* a result leaf of that type with room for the elements is reused and keeps the rest
      [] e.op = "to_array" -> ConvAll(d.t, Elems(d), e.t) \o
             (IF e.pt = e.t /\ Len(e.pv) > d.n THEN SubSeq(e.pv, d.n + 1, Len(e.pv)) ELSE <<>>)
      [] OTHER -> <<>>
Valid(e) ==
    CASE e.op = "stats" -> StatsOK(e.t, ConvAll(e.d.t, Elems(e.d), e.t), e.out) /\ e.out.mem = e.d.mem
      [] e.op = "from_string" -> Small(e.t, e.out.ret[1]) = e.q
      [] OTHER -> e.out.mem = Mem(e) /\ e.out.ret = Ret(e)
Show(e) == IF e.op = "stats" THEN <<"stats of", ConvAll(e.d.t, Elems(e.d), e.t)>>
           ELSE IF e.op = "from_string" THEN <<"16*value", e.q>> ELSE [mem |-> Mem(e), ret |-> Ret(e)]
=============================================================================
