-------------------------------- MODULE Slab --------------------------------
(* HDF5 datasets written and read in parts. A dataset is a sequence of       *)
(* elements; it is extendible once it was written with an offset or stride.  *)
EXTENDS Tree, Integers
Zero(w) == LET RECURSIVE Z(_) Z(i) == IF i = 0 THEN "" ELSE "00" \o Z(i - 1) IN Z(w)
W(t) == CASE t \in {"int8", "uint8"} -> 1 [] t \in {"int16", "uint16"} -> 2
          [] t \in {"int32", "uint32", "float32"} -> 4 [] OTHER -> 8
NoData == [t |-> "", ext |-> FALSE, v |-> <<>>]
Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
MaxOf(a, b) == IF a > b THEN a ELSE b
R(d, ok, res) == [st |-> d, ok |-> ok, res |-> res]
Write(d, e) ==
  LET off == Opt(e.o.offset, 0)  str == Opt(e.o.stride, 1)
      part == e.o.offset # <<>> \/ e.o.stride # <<>>
      m == Len(e.v)  n == Len(d.v)
      need == off + m + (m - 1) * (str - 1)
      len == MaxOf(IF d.t = "" THEN m ELSE n, need)
      put(i) == IF i - 1 >= off /\ (i - 1 - off) % str = 0 /\ (i - 1 - off) \div str < m
                THEN e.v[((i - 1 - off) \div str) + 1]
                ELSE IF i <= n THEN d.v[i] ELSE Zero(W(e.t))
  IN IF d.t # "" /\ (d.t # e.t \/ (~part /\ ~d.ext /\ m # n)) THEN R(d, FALSE, <<>>)
     ELSE IF str = 0 THEN R(d, FALSE, <<>>)
     ELSE R([t |-> e.t,
             ext |-> d.ext \/ (d.t = "" /\ e.o.offset # <<>>) \/ off # 0 \/ str # 1 \/ (d.t # "" /\ part /\ m # n),
             v |-> [i \in 1..len |-> put(i)]], TRUE, <<>>)
(* ---- reading a box out of a (row-major) N-dimensional array               *)
At(o, i, d) == IF o = <<>> THEN d ELSE o[i]
Cnt(o, dims, i) ==
  LET off == At(o.offset, i, 0)  str == At(o.stride, i, 1)  sz == At(o.size, i, 0) IN
  IF sz # 0 THEN sz ELSE IF dims[i] <= off THEN 0 ELSE (dims[i] - off + str - 1) \div str
Inside(o, dims) ==
  \A i \in 1..Len(dims) :
    LET off == At(o.offset, i, 0)  str == At(o.stride, i, 1)  c == Cnt(o, dims, i) IN
    str > 0 /\ c > 0 /\ off + (c - 1) * str < dims[i]
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i + 1)
Box(v, o, dims) ==
  LET k == Len(dims)
      cs == [i \in 1..k |-> Cnt(o, dims, i)]
      src(j) == LET RECURSIVE S(_) S(i) == IF i > k THEN 0
                      ELSE (At(o.offset, i, 0) + (((j \div Prod(cs, i + 1)) % cs[i]) * At(o.stride, i, 1))) * Prod(dims, i + 1) + S(i + 1)
                IN S(1)
  IN [j \in 1..Prod(cs, 1) |-> v[src(j - 1) + 1]]
Counts(o, dims) == [i \in 1..Len(dims) |-> Cnt(o, dims, i)]
Positive(o, dims) == \A i \in 1..Len(dims) : At(o.stride, i, 1) > 0
Leaf(t, v) == [k |-> "d", nm |-> <<>>, ch |-> <<>>, t |-> t, n |-> Len(v), v |-> v]
ReadBox(t, v, dims, e) ==
  IF Inside(e.o, dims)
  THEN LET s == Leaf(t, Box(v, e.o, dims)) IN <<TRUE, {s, Update(e.pre, s)}>>
  ELSE <<FALSE, {}>>
(* an empty box (offset at the end) may be refused or give no elements       *)
Odd(o, dims) == \E i \in 1..Len(dims) : At(o.offset, i, 0) >= dims[i] /\ At(o.size, i, 0) = 0
OkRead(t, v, dims, e) ==
  LET r == ReadBox(t, v, dims, e) IN
  \/ (e.ok /\ r[1] /\ e.res[1] \in r[2])
  \/ (~e.ok /\ ~r[1])
  \/ (Odd(e.o, dims) /\ (e.ok => e.res[1].n = 0 \/ e.res[1] = e.pre))
OkInfo(dims, e) ==
  IF ~Positive(e.o, dims) THEN ~e.ok
  ELSE \/ Odd(e.o, dims)
       \/ (e.ok /\ e.res = Counts(e.o, dims))
       \/ (~e.ok /\ \E i \in 1..Len(dims) : At(e.o.offset, i, 0) > dims[i])
Step(d, e) ==
  CASE e.op = "write" -> LET r == Write(d, e) IN [st |-> r.st, good |-> r.ok = e.ok]
    [] e.op = "read" -> [st |-> d, good |-> OkRead(d.t, d.v, <<Len(d.v)>>, e)]
    [] e.op = "info" -> [st |-> d, good |-> OkInfo(<<Len(d.v)>>, e)]
    [] e.op = "nread" -> [st |-> d, good |-> OkRead(e.t, e.v, e.dims, e)]
    [] e.op = "ninfo" -> [st |-> d, good |-> OkInfo(e.dims, e)]
=============================================================================
