-------------------------------- MODULE Flat --------------------------------
(* Flattening: one row per point and one per element of the chosen topology, *)
(* domains one after the other (ranks in order), each row with its place,    *)
(* its field values (the fill value where its domain lacks the field), its   *)
(* domain and its number.  Numbers are in quarters, centers in 1/16384.      *)
EXTENDS Mesh
Own(e, d) == IF e.par THEN e.own[d] % e.out.n ELSE 0
\* domains in row order
Order(e) == LET n == e.out.n IN FoldLeft(LAMBDA a, r : a \o SelectSeq([d \in 1..Len(e.doms) |-> d], LAMBDA d : Own(e, d) = r), <<>>, [r \in 1..n |-> r - 1])
TName(e) == IF e.topo = "" THEN "topo" ELSE e.topo
Tp(e, d) == LET k == CHOOSE k \in 1..Len(e.doms[d].tp) : e.doms[d].tp[k].n = TName(e) IN e.doms[d].tp[k].m
CName(e) == IF TName(e) = "other" THEN "c2" ELSE e.cs
Root(e) == IF e.par /\ e.root >= 0 THEN e.root % e.out.n ELSE 0
On(v, default) == IF v = 2 THEN default ELSE v = 1
FFill(e) == CASE e.fill = "num" -> e.ff [] e.fill = "obj" /\ e.hf -> e.ff [] OTHER -> 0
IFill(e) == CASE e.fill = "num" -> 4 * (e.ff \div 4) [] e.fill = "obj" /\ e.hi -> e.fi [] OTHER -> 0
------------------------------------------------------------------------------
\* a field of a domain takes part if it lives on the topology and says where
Has(e, d, n) == \E k \in 1..Len(e.doms[d].f) : LET f == e.doms[d].f[k] IN f.n = n /\ f.tp = TName(e) /\ f.a # ""
Fld(e, d, n) == e.doms[d].f[CHOOSE k \in 1..Len(e.doms[d].f) : e.doms[d].f[k].n = n]
Names(e) == UNION {{e.doms[d].f[k].n : k \in 1..Len(e.doms[d].f)} : d \in 1..Len(e.doms)}
Wanted(e) == {n \in Names(e) : (\E d \in 1..Len(e.doms) : Has(e, d, n)) /\ (e.flds = <<>> \/ n \in Rng(e.flds))}
Ref(e, n) == LET O == Order(e) i == CHOOSE i \in 1..Len(O) : Has(e, O[i], n) /\ \A j \in 1..(i - 1) : ~Has(e, O[j], n) IN Fld(e, O[i], n)
FloatT(f) == \E k \in 1..Len(f.t) : f.t[k] \in {"float32", "float64"}
Comps(f) == IF f.mc THEN SubSeq(<<"u", "v", "w">>, 1, Len(f.c)) ELSE <<>>
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Rows(e, d, a) == IF a = "vertex" THEN NPts(Tp(e, d).c) ELSE Len(Elems(Tp(e, d).t, Tp(e, d).c))
Over(e, F(_)) == LET O == Order(e) IN Cat([i \in 1..Len(O) |-> F(O[i])])
Column(e, n, k) == LET r == Ref(e, n) fill == IF FloatT(r) THEN FFill(e) ELSE IFill(e) IN
    Over(e, LAMBDA d : IF Has(e, d, n) THEN Fld(e, d, n).c[k] ELSE [i \in 1..Rows(e, d, r.a) |-> fill])
DomNo(e, d) == LET mates == {z \in 1..Len(e.doms) : Own(e, z) = Own(e, d)} IN
    IF \A z \in mates : e.doms[z].id >= 0 THEN e.doms[d].id ELSE Cardinality({z \in mates : z < d})
Col(n, cn, k, c) == [n |-> n, cn |-> cn, k |-> k, c |-> c]
FieldCols(e, a) == {LET r == Ref(e, n) IN Col(n, Comps(r), IF FloatT(r) THEN "f" ELSE "i", [k \in 1..Len(r.c) |-> Column(e, n, k)]) : n \in {n \in Wanted(e) : Ref(e, n).a = a}}
Ax(e) == Tp(e, 1).c.ax
RootName(e) == IF ~e.par \/ \E d \in 1..Len(e.doms) : Own(e, d) = Root(e) THEN CName(e) ELSE "coords"
PointCols(e) == IF ~On(e.avl, TRUE) THEN {}
    ELSE {[n |-> RootName(e), cn |-> Ax(e), c |-> [k \in 1..Len(Ax(e)) |-> Over(e, LAMBDA d : LET P == Pts(Tp(e, d).c) IN [i \in 1..Len(P) |-> P[i][k]])]]}
InfoCols(e, a, id) ==
    (IF On(e.adi, TRUE) THEN {Col("domain_id", <<>>, "i", <<Over(e, LAMBDA d : [i \in 1..Rows(e, d, a) |-> 4 * DomNo(e, d)])>>),
                              Col(id, <<>>, "i", <<Over(e, LAMBDA d : [i \in 1..Rows(e, d, a) |-> 4 * (i - 1)])>>)} ELSE {})
    \cup (IF e.par /\ On(e.ar, FALSE) THEN {Col("mpi_rank", <<>>, "i", <<Over(e, LAMBDA d : [i \in 1..Rows(e, d, a) |-> 4 * Own(e, d)])>>)} ELSE {})
\* the points an element's center averages; polyhedra count a point once per face, or once
CtrPts(x) == IF x.s = "polyhedral" THEN {Cat(x.f), SetToSeq(Verts(x))} ELSE {x.p}
IsCtr(v, P, ps, k) == LET S == SumS([i \in 1..Len(ps) |-> P[ps[i] + 1][k]]) d == S * 4096 - Len(ps) * v IN d \in (-Len(ps))..Len(ps)
CentersOk(e, t) ==
    IF ~On(e.aec, TRUE) THEN \A i \in 1..Len(t) : t[i].n # "element_centers"
    ELSE \E i \in 1..Len(t) : /\ t[i].n = "element_centers" /\ t[i].cn = Ax(e) /\ t[i].k = "f" /\ Len(t[i].c) = Len(Ax(e))
           /\ LET all == Over(e, LAMBDA d : LET P == Pts(Tp(e, d).c) E == Elems(Tp(e, d).t, Tp(e, d).c) IN [j \in 1..Len(E) |-> <<P, E[j]>>]) IN
              /\ \A k \in 1..Len(Ax(e)) : Len(t[i].c[k]) = Len(all)
              /\ \A j \in 1..Len(all) : \E ps \in CtrPts(all[j][2]) : \A k \in 1..Len(Ax(e)) : IsCtr(t[i].c[k][j], all[j][1], ps, k)
Plain4(t, n) == {t[i] : i \in {i \in 1..Len(t) : t[i].n # n}}
Where(e, t, n) == {[n |-> t[i].n, cn |-> t[i].cn, c |-> t[i].c] : i \in {i \in 1..Len(t) : t[i].n = n}}
OrderOk(e, t) == e.par \/ e.flds = <<>> \/ LET s == SelectSeq([i \in 1..Len(t) |-> t[i].n], LAMBDA n : n \in Rng(e.flds)) IN s = SelectSeq(e.flds, LAMBDA n : n \in Rng(s))
Why(e) ==
    LET R == e.out.ranks r == R[Root(e) + 1] IN
    IF \E i \in 1..Len(R) : ~R[i].ok THEN "error" ELSE IF \E i \in 1..Len(R) : ~R[i].src THEN "source changed" ELSE IF \E i \in 1..Len(R) : ~R[i].ver THEN "verify"
    ELSE IF \E i \in 1..Len(R) : i # Root(e) + 1 /\ R[i].nc # 0 THEN "rows beyond the root"
    ELSE LET V == FieldCols(e, "vertex") E == FieldCols(e, "element") hv == V # {} \/ On(e.avl, TRUE) he == E # {} \/ On(e.aec, TRUE) IN
    IF r.hv # hv \/ r.he # he \/ r.nc # (IF hv THEN 1 ELSE 0) + (IF he THEN 1 ELSE 0) THEN "tables"
    ELSE IF hv /\ Plain4(r.v, RootName(e)) # V \cup InfoCols(e, "vertex", "vertex_id") THEN "vertex rows"
    ELSE IF hv /\ Where(e, r.v, RootName(e)) # PointCols(e) THEN "points"
    ELSE IF he /\ Plain4(r.e, "element_centers") # E \cup InfoCols(e, "element", "element_id") THEN "element rows"
    ELSE IF he /\ ~CentersOk(e, r.e) THEN "centers"
    ELSE IF ~OrderOk(e, r.v) \/ ~OrderOk(e, r.e) THEN "order" ELSE ""
Valid(e) == Why(e) = ""
Show(e) == IF \E i \in 1..Len(e.out.ranks) : ~e.out.ranks[i].ok THEN <<"error", [i \in 1..Len(e.out.ranks) |-> IF e.out.ranks[i].ok THEN "" ELSE e.out.ranks[i].err]>> ELSE <<Why(e)>>
=============================================================================
