------------------------------ MODULE MeshConv ------------------------------
(* Conversions between mesh descriptions, and derived topologies.            *)
EXTENDS Mesh
\* events: [op, m |-> [c, t], out |-> ...]; out.ok FALSE when the call raised an error
\* a uniform coordset without origin and spacing has logical or cartesian axes
AxOk(o, c) == \/ o.ax = c.ax
              \/ c.type = "uniform" /\ c.org = <<>> /\ c.sp = <<>> /\ o.ax = SubSeq(<<"i", "j", "k">>, 1, Len(c.dims))
\* polygons and polyhedra are complete with sizes and offsets
Complete(t) == t.shape \in {"polygonal", "polyhedral"} => t.offsets # <<>> /\ (t.shape = "polyhedral" => t.soffsets # <<>>)
Is3(e) == e.s \in {"tet", "hex", "wedge", "pyramid", "polyhedral"}
ConvOk(e) ==
    LET P == Pts(e.m.c) E == Elems(e.m.t, e.m.c) IN
    /\ e.out.ok /\ e.out.src
    /\ Pts(e.out.c) = P
    /\ AxOk(e.out.c, e.m.c)
    /\ e.out.c.type = e.ctype
    /\ e.out.t.type = e.ttype
    /\ e.out.cref
    /\ Elems(e.out.t, e.out.c) = E
    /\ e.out.ver
PolyOk(e) ==
    LET E == Elems(e.m.t, e.m.c) F == Elems(e.out.t, e.m.c) IN
    /\ e.out.ok /\ e.out.src /\ (e.out.ver <=> Complete(e.m.t))
    /\ Len(F) = Len(E) /\ e.out.t.type = "unstructured"
    /\ \A i \in 1..Len(E) :
         IF Is3(E[i]) THEN /\ F[i].s = "polyhedral" /\ Len(F[i].f) = Len(Faces(E[i])) /\ FaceSets(F[i]) = FaceSets(E[i])
                           /\ Edges(F[i]) = Edges(E[i])
         ELSE F[i].s = "polygonal" /\ F[i].p = E[i].p
    /\ (E # <<>> /\ Is3(E[1])) => LET s == Slices(e.out.t.sconn, e.out.t.ssizes, e.out.t.soffsets) IN
         \A a, b \in 1..Len(s) : a # b => Rng(s[a]) # Rng(s[b])
CsetOk(e) == /\ e.out.ok /\ e.out.src /\ e.out.ver
             /\ Pts(e.out.c) = Pts(e.m.c) /\ e.out.c.type = e.ctype /\ AxOk(e.out.c, e.m.c)
QueryOk(e) == LET E == Elems(e.m.t, e.m.c) IN
    /\ e.out.ok /\ (e.out.ver <=> Complete(e.m.t))
    /\ e.out.nelem = Len(E) /\ e.out.npts = NPts(e.m.c) /\ e.out.cdim = NAx(e.m.c) /\ (e.out.tdim = TopoDim(e.m.t, e.m.c) \/ e.m.t.type = "points")
    /\ e.out.pts = [i \in 1..Len(e.out.pts) |-> SetToSortSeq(Verts(E[i]), <)]
    /\ e.m.t.type = "unstructured" => e.out.offs = (IF e.m.t.offsets # <<>> THEN e.m.t.offsets ELSE Prefix([i \in 1..Len(E) |-> IF E[i].s = "polyhedral" THEN Len(E[i].f) ELSE Len(E[i].p)]))
    /\ (e.m.t.type = "unstructured" /\ e.m.t.shape = "polyhedral") => e.out.soffs = (IF e.m.t.soffsets # <<>> THEN e.m.t.soffsets ELSE Prefix(e.m.t.ssizes))
------------------------------------------------------------------------------
(* points, lines, faces: every entity once, with maps both ways              *)
DeriveOk(e) ==
    LET E == Elems(e.m.t, e.m.c) D == Elems(e.out.t, e.m.c)
        Ent == [i \in 1..Len(E) |-> Entities(E[i], e.dim)]
        Of == [k \in 1..Len(D) |-> Verts(D[k])] IN
    /\ e.out.ok /\ e.out.src
    /\ \A a, b \in 1..Len(D) : a # b => Of[a] # Of[b]
    \* (generate_points may list the points no element uses)
    /\ Rng(Of) \ (IF e.dim = 0 THEN {{v} : v \in 0..(NPts(e.m.c) - 1)} ELSE {}) \subseteq UNION Rng(Ent)
    /\ UNION Rng(Ent) \subseteq Rng(Of)
    /\ Len(e.out.s2d) = Len(E) /\ Len(e.out.d2s) = Len(D)
    /\ \A i \in 1..Len(E) : /\ Rng(e.out.s2d[i]) = {k - 1 : k \in {k \in 1..Len(D) : Of[k] \in Ent[i]}}
                            /\ Len(e.out.s2d[i]) = Cardinality(Rng(e.out.s2d[i]))
    /\ \A k \in 1..Len(D) : /\ Rng(e.out.d2s[k]) = {i - 1 : i \in {i \in 1..Len(E) : Of[k] \in Ent[i]}}
                            /\ Len(e.out.d2s[k]) = Cardinality(Rng(e.out.d2s[k]))
    \* faces keep the cyclic order of their points
    /\ e.dim = 2 => LET all == UNION {Edges(E[i]) : i \in 1..Len(E)} IN \A k \in 1..Len(D) : Edges(D[k]) \subseteq all
    /\ \A k \in 1..Len(D) : D[k].s \in (CASE e.dim = 0 -> {"point"} [] e.dim = 1 -> {"line"} [] OTHER -> {"tri", "quad", "polygonal"})
CentroidOk(e) ==
    LET P == Pts(e.m.c) E == Elems(e.m.t, e.m.c) IN
    /\ e.out.ok /\ e.out.src /\ e.out.ver
    /\ Pts(e.out.c) = [i \in 1..Len(E) |-> Center(P, Verts(E[i]))]
    /\ Elems(e.out.t, e.out.c) = [i \in 1..Len(E) |-> El("point", <<i - 1>>)]
    /\ e.out.s2d = [i \in 1..Len(E) |-> i - 1] /\ e.out.d2s = [i \in 1..Len(E) |-> i - 1]
\* corners and sides: by the coordinates of their points
Split(e, n) == /\ Len(e.out.s2d) = Len(Elems(e.m.t, e.m.c)) /\ Len(e.out.d2s) = n
               /\ \A i \in 1..Len(e.out.s2d) : Len(e.out.s2d[i]) = Cardinality(Rng(e.out.s2d[i]))
               /\ \A k \in 1..n : Len(e.out.d2s[k]) = 1 /\ e.out.d2s[k][1] + 1 \in 1..Len(e.out.s2d)
               /\ \A i \in 1..Len(e.out.s2d) : Rng(e.out.s2d[i]) = {k - 1 : k \in {k \in 1..n : e.out.d2s[k][1] = i - 1}}
SameStart(e) == LET P == Pts(e.m.c) Q == Pts(e.out.c) IN Len(Q) >= Len(P) /\ SubSeq(Q, 1, Len(P)) = P
SidesOf(P, x) ==
    LET c == Center(P, Verts(x)) F == Faces(x) IN
    IF Is3(x) THEN UNION {{<<{P[y[1] + 1], P[y[2] + 1]}, Center(P, Rng(F[i])), c>> : y \in Cyc(F[i])} : i \in 1..Len(F)}
    ELSE {<<P[y[1] + 1], P[y[2] + 1], c>> : y \in Cyc(x.p)}
SidesOk(e) ==
    LET P == Pts(e.m.c) E == Elems(e.m.t, e.m.c) Q == Pts(e.out.c) S == Elems(e.out.t, e.out.c)
        three == ShapeDim(e.m.t.shape) = 3
        Got(k) == IF three THEN <<{Q[S[k].p[1] + 1], Q[S[k].p[2] + 1]}, Q[S[k].p[3] + 1], Q[S[k].p[4] + 1]>>
                  ELSE <<Q[S[k].p[1] + 1], Q[S[k].p[2] + 1], Q[S[k].p[3] + 1]>> IN
    /\ e.out.ok /\ e.out.src /\ e.out.ver
    /\ e.out.t.shape = (IF three THEN "tet" ELSE "tri")
    /\ SameStart(e) /\ Split(e, Len(S))
    /\ \A i \in 1..Len(E) : LET ks == e.out.s2d[i] IN
         {Got(ks[j] + 1) : j \in 1..Len(ks)} = SidesOf(P, E[i]) /\ Len(ks) = Cardinality(SidesOf(P, E[i]))
\* fields on the sides: element fields keep their type and values; vertex fields average at the new points over
\* the original points they are joined to; volume dependent ones are split in proportion (shares in 1e-6)
SumOver(V, q) == FoldSet(LAMBDA v, acc : acc + q[v + 1], 0, V)
FieldAt(fs, n) == fs[CHOOSE k \in 1..Len(fs) : fs[k].n = n]
SidesFieldsOk(e) ==
    LET P == Pts(e.m.c) S == Elems(e.out.t, e.out.c) n == Len(S) np == Len(P) nq == Len(Pts(e.out.c)) fs == e.out.fl
        own == [k \in 1..n |-> e.out.d2s[k][1]]
        use == {i \in 1..Len(e.fl) : e.fl[i].tp = "topo" /\ (e.sel => e.fl[i].n \in Rng(e.nm))}
        vd == \E i \in use : e.fl[i].vd = "true"
        near == [p \in 0..(nq - 1) |-> UNION {{v \in Rng(S[k].p) : v < np} : k \in {k \in 1..n : p \in Rng(S[k].p)}}]
        Close(a, b) == a - b \in -2..2
        Ids(f, a) == f.a = a /\ f.tp = "topo" /\ f.vd = "false" /\ f.t = "int32"
        At(i) == LET f == e.fl[i] g == FieldAt(fs, e.pf \o f.n) IN
            /\ g.a = f.a /\ g.tp = f.tp /\ g.vd = f.vd /\ g.nc = (IF f.vd = "" THEN 3 ELSE 4)
            /\ CASE f.a = "vertex" -> /\ g.t = "float64" /\ Len(g.q) = nq
                                      /\ \A p \in 0..(nq - 1) : IF p < np THEN g.v[p + 1] = f.v[p + 1]
                                           ELSE IF near[p] = {} THEN g.q[p + 1] = 0
                                           ELSE g.q[p + 1] * Cardinality(near[p]) = SumOver(near[p], g.q)
                 [] f.vd = "true" -> g.t = "float64" /\ Len(g.q) = n /\ \A k \in 1..n : Close(g.q[k], e.out.share[k])
                 [] OTHER -> g.t = f.t /\ g.v = [k \in 1..n |-> f.v[own[k] + 1]] IN
    IF e.none THEN fs = <<>>
    ELSE /\ Cardinality({fs[k].n : k \in 1..Len(fs)}) = Len(fs)
         /\ {fs[k].n : k \in 1..Len(fs)} = {e.pf \o x : x \in {"original_element_ids", "original_vertex_ids"} \cup {e.fl[i].n : i \in use} \cup (IF vd THEN {"volume"} ELSE {})}
         /\ LET f == FieldAt(fs, e.pf \o "original_element_ids") IN Ids(f, "element") /\ f.v = [k \in 1..n |-> ToString(own[k])]
         /\ LET f == FieldAt(fs, e.pf \o "original_vertex_ids") IN Ids(f, "vertex") /\ f.q = [p \in 1..nq |-> IF p <= np THEN p - 1 ELSE -1]
         /\ vd => LET f == FieldAt(fs, e.pf \o "volume") IN f.a = "element" /\ f.tp = "topo" /\ f.t = "float64" /\ Len(f.q) = n /\ \A k \in 1..n : Close(f.q[k], 1000000)
         /\ \A i \in use : At(i)
SidesfOk(e) == IF e.bad THEN ~e.out.ok ELSE SidesOk(e) /\ SidesFieldsOk(e)
CornersOk(e) ==
    LET P == Pts(e.m.c) E == Elems(e.m.t, e.m.c) Q == Pts(e.out.c) S == Elems(e.out.t, e.out.c)
        three == ShapeDim(e.m.t.shape) = 3
        Mid(s) == Center(P, s)
        At(x, v) == IF three
                    THEN LET F == {f \in FaceSets(x) : v \in f} G == {g \in Edges(x) : v \in g}
                             EdgesIn(f) == {g \in G : g \subseteq f}
                             FacesOn(g) == {f \in F : g \subseteq f} IN
                         {{P[v + 1], Center(P, f)} \cup {Mid(g) : g \in EdgesIn(f)} : f \in F}
                         \cup {{Mid(g), Center(P, Verts(x))} \cup {Center(P, f) : f \in FacesOn(g)} : g \in G}
                    ELSE LET i == CHOOSE i \in 1..Len(x.p) : x.p[i] = v n == Len(x.p)
                             nx == x.p[(i % n) + 1] pv == x.p[((i + n - 2) % n) + 1] IN
                         <<P[v + 1], Mid({v, nx}), Center(P, Verts(x)), Mid({pv, v})>>
        Got(k) == IF three THEN {{Q[v + 1] : v \in Rng(S[k].f[i])} : i \in 1..Len(S[k].f)} ELSE [i \in 1..Len(S[k].p) |-> Q[S[k].p[i] + 1]] IN
    /\ e.out.ok /\ e.out.src /\ e.out.ver
    /\ e.out.t.shape = (IF three THEN "polyhedral" ELSE "polygonal")
    /\ SameStart(e) /\ Split(e, Len(S))
    /\ \A i \in 1..Len(E) : LET ks == e.out.s2d[i] IN
         /\ {Got(ks[j] + 1) : j \in 1..Len(ks)} = {At(E[i], v) : v \in Verts(E[i])}
         /\ Len(ks) = Cardinality(Verts(E[i]))
------------------------------------------------------------------------------
Valid(e) == CASE e.op = "conv" -> ConvOk(e) [] e.op = "poly" -> PolyOk(e) [] e.op = "cset" -> CsetOk(e) [] e.op = "query" -> QueryOk(e)
              [] e.op = "derive" -> DeriveOk(e) [] e.op = "centroids" -> CentroidOk(e) [] e.op = "sides" -> SidesOk(e) [] e.op = "sidesf" -> SidesfOk(e) [] e.op = "corners" -> CornersOk(e)
Show(e) == IF ~e.out.ok THEN <<"error", e.out.err>> ELSE <<Pts(e.m.c), Elems(e.m.t, e.m.c)>>
=============================================================================
