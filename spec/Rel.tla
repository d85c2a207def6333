-------------------------------- MODULE Rel --------------------------------
(* Blueprint's small building blocks: multi-component arrays (mcarray),      *)
(* multi-level arrays (mlarray), tables, one-to-many relations and           *)
(* n-dimensional indices.  Trees are value trees as in Tree.tla.             *)
EXTENDS BpRules
Bytes(t) == CASE t \in {"int8","uint8"} -> 1 [] t \in {"int16","uint16"} -> 2 [] t \in {"int32","uint32","float32"} -> 4 [] OTHER -> 8
Sum(s) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN 0 ELSE s[i] + G(i - 1) IN G(Len(s))
Pre(s) == [i \in 1..Len(s) |-> Sum(SubSeq(s, 1, i - 1))]
Strip(t) == LET RECURSIVE G(_) G(x) == [k |-> x.k, nm |-> x.nm, ch |-> [i \in 1..Len(x.ch) |-> G(x.ch[i])], t |-> x.t, v |-> x.v] IN G(t)
------------------------------------------------------------------------------
ValidMc(e) ==
    /\ e.out.ver = McOk(e.tree)
    /\ e.out.conv => LET n == Len(e.tree.ch) w == [i \in 1..n |-> Bytes(e.tree.ch[i].t)] c == [i \in 1..n |-> w[i] * Cnt(e.tree.ch[i])] IN
         /\ Strip(e.out.cont) = Strip(e.tree) /\ Strip(e.out.inter) = Strip(e.tree)
         /\ e.out.src
         /\ Cnt(e.tree.ch[1]) > 0 =>
              /\ e.out.coff = Pre(c) /\ e.out.cstr = w
              /\ e.out.ioff = Pre(w) /\ e.out.istr = [i \in 1..n |-> Sum(w)]
              /\ e.out.iisi /\ e.out.cisc
              /\ (e.out.cisi = (n = 1 \/ (Cnt(e.tree.ch[1]) = 1 /\ Cardinality({w[i] : i \in 1..n}) = 1)))
------------------------------------------------------------------------------
(* mlarray (objects): same names at every depth, numeric leaves              *)
ValidMl(e) == e.out.ver = MlOk(e.tree, e.lo, e.hi, e.uni)
------------------------------------------------------------------------------
(* table: "values" has columns of one length, each data or an mcarray        *)
ColOk(c) == IF Box(c) THEN McOk(c) ELSE c.k # "e"
Rows(c) == IF Box(c) THEN (IF c.ch = <<>> THEN 0 ELSE Cnt(c.ch[1])) ELSE Cnt(c)
TableVals(v) == Box(v) /\ (\A i \in 1..Len(v.ch) : ColOk(v.ch[i])) /\ \A i, j \in 1..Len(v.ch) : Rows(v.ch[i]) = Rows(v.ch[j])
Table1(t) == Has(t, "values") /\ TableVals(Kid(t, "values"))
TableOk(t) == IF Has(t, "values") THEN Table1(t) ELSE Box(t) /\ t.ch # <<>> /\ \A i \in 1..Len(t.ch) : Table1(t.ch[i])
ValidTable(e) == ~e.out.raised /\ e.out.ver = TableOk(e.tree)
------------------------------------------------------------------------------
(* one-to-many relations: e.c are the children, [n]ame, [t]ype, values [i]   *)
HasC(e, n) == \E i \in 1..Len(e.c) : e.c[i].n = n
C(e, n) == e.c[CHOOSE i \in 1..Len(e.c) : e.c[i].n = n]
DataC(e) == SelectSeq(e.c, LAMBDA c : c.n \notin Meta /\ c.t \in Numbers)
O2mOk(e) == /\ \A i \in 1..Len(e.c) : e.c[i].n \in Meta => e.c[i].t \in IntTypes
            /\ HasC(e, "sizes") = HasC(e, "offsets")
            /\ HasC(e, "sizes") => Len(C(e, "sizes").i) = Len(C(e, "offsets").i)
            /\ DataC(e) # <<>>
Ones(e) == IF HasC(e, "sizes") THEN Len(C(e, "sizes").i) ELSE IF HasC(e, "indices") THEN Len(C(e, "indices").i) ELSE Len(DataC(e)[1].i)
Size(e, o) == IF HasC(e, "sizes") THEN C(e, "sizes").i[o] ELSE 1
Off(e, o) == IF HasC(e, "offsets") THEN C(e, "offsets").i[o] ELSE o - 1
Ind(e, x) == IF HasC(e, "indices") THEN C(e, "indices").i[x + 1] ELSE x
Many(e, o) == [m \in 1..Size(e, o) |-> Ind(e, Off(e, o) + m - 1)]
Grid(e) == [o \in 1..Ones(e) |-> Many(e, o)]
Flat(s) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN <<>> ELSE G(i - 1) \o s[i] IN G(Len(s))
Pick(c, e) == LET f == Flat(Grid(e)) IN [i \in 1..Len(f) |-> c.i[f[i] + 1]]
ValidO2m(e) ==
    /\ e.out.ver = O2mOk(e)
    /\ e.out.run =>
         LET g == Grid(e) f == Flat(g) d == DataC(e) s == [o \in 1..Ones(e) |-> Size(e, o)] IN
         /\ e.out.paths = [i \in 1..Len(d) |-> d[i].n]
         /\ e.out.ones = Ones(e) /\ e.out.total = Len(f)
         /\ e.out.data = f /\ e.out.peek = f
         /\ e.out.rev = Reverse(f)
         /\ e.out.nest = g /\ e.out.at = g /\ e.out.many = s
         /\ e.out.to = f
         /\ e.out.idx = g
         /\ (HasC(e, "sizes") \/ HasC(e, "indices")) => e.out.isize = Ones(e)
         /\ e.out.ioff = [o \in 1..Ones(e) |-> Off(e, o)]
         /\ e.out.compact.ok
         /\ HasC(e, "sizes") =>
              /\ e.out.compact.sizes = s /\ e.out.compact.offsets = Pre(s)
              /\ e.out.compact.names = [i \in 1..Len(d) |-> d[i].n]
              /\ e.out.compact.types = [i \in 1..Len(d) |-> d[i].t]
         /\ e.out.compact.data = [i \in 1..Len(d) |-> IF HasC(e, "sizes") THEN Pick(d[i], e) ELSE d[i].i]
         /\ e.out.src
    /\ e.out.gen.ok = (HasC(e, "sizes") /\ C(e, "sizes").t \in IntTypes)
    /\ e.out.gen.ok => e.out.gen.offsets = Pre(C(e, "sizes").i)
Uniform(e) ==
    LET bare == e.nmany = 0 /\ e.noff = 0
        m == IF e.nmany = 0 THEN 1 ELSE e.nmany  w == IF e.noff = 0 THEN m ELSE e.noff IN
    [bad |-> w < m, ones |-> e.nones, m |-> m, w |-> w, meta |-> ~bare,
     grid |-> [o \in 1..e.nones |-> [k \in 1..m |-> (IF e.ind = "reversed" THEN e.nones - o ELSE o - 1) * w + k - 1]]]
ValidUniform(e) == LET u == Uniform(e) IN
    IF u.bad THEN e.out.err
    ELSE /\ ~e.out.err /\ e.out.ver
         /\ (u.meta \/ e.ind = "unspecified" \/ TRUE) => e.out.grid = u.grid
         /\ e.out.meta = u.meta /\ e.out.hasind = (e.ind # "unspecified")
         /\ e.out.vals = [i \in 1..(u.ones * u.w) |-> LET o == (i - 1) \div u.w k == (i - 1) % u.w IN IF k < u.m THEN o * u.m + k + 1 ELSE -1]
------------------------------------------------------------------------------
(* n-dimensional index                                                       *)
NdOff(e, d) == IF e.offset = <<>> THEN 0 ELSE e.offset[d]
RECURSIVE NdStride(_, _)
NdStride(e, d) == IF e.stride # <<>> THEN e.stride[d] ELSE IF d = 1 THEN 1 ELSE NdStride(e, d - 1) * (NdOff(e, d - 1) + e.shape[d - 1])
ValidNd(e) == LET n == Len(e.shape) IN
    /\ e.out.ndims = n /\ e.out.shape = e.shape
    /\ e.out.offset = [d \in 1..n |-> NdOff(e, d)] /\ e.out.stride = [d \in 1..n |-> NdStride(e, d)]
    /\ e.out.index = Sum([d \in 1..n |-> (NdOff(e, d) + e.at[d]) * NdStride(e, d)])
    /\ e.out.info
------------------------------------------------------------------------------
Valid(e) == CASE e.op = "mc" -> ValidMc(e) [] e.op = "ml" -> ValidMl(e) [] e.op = "table" -> ValidTable(e)
              [] e.op = "o2m" -> ValidO2m(e) [] e.op = "uniform" -> ValidUniform(e) [] e.op = "nd" -> ValidNd(e)
Show(e) == CASE e.op = "mc" -> McOk(e.tree) [] e.op = "ml" -> MlOk(e.tree, e.lo, e.hi, e.uni) [] e.op = "table" -> TableOk(e.tree)
             [] e.op = "o2m" -> <<O2mOk(e), IF e.out.run THEN Grid(e) ELSE <<>>, e.c>> [] e.op = "uniform" -> Uniform(e)
             [] e.op = "nd" -> [d \in 1..Len(e.shape) |-> NdStride(e, d)]
=============================================================================
