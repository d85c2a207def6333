-------------------------------- MODULE Part --------------------------------
(* Partitioning: selections pick elements of domains; the output domains     *)
(* hold exactly the picked elements, each with its shape, the coordinates of *)
(* its points, its field values and its origin.  Mapping back carries field  *)
(* values of the parts to the elements and points they came from.            *)
EXTENDS Mesh
Mats == INSTANCE Mat
\* domains without ids are numbered in the order of the ranks that hold them
DomId(e, d) == IF e.doms[d].id >= 0 THEN e.doms[d].id
               ELSE Cardinality({z \in 1..Len(e.doms) : e.own[z] < e.own[d] \/ (e.own[z] = e.own[d] /\ z < d)})
EDims(m) == IF m.t.type = "structured" THEN m.t.dims ELSE [d \in 1..NAx(m.c) |-> PDims(m.c)[d] - 1]
IsGrid(m) == m.t.type # "unstructured"
NEl(m) == Len(Elems(m.t, m.c))
At3(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* the elements (from 0) a selection picks in a mesh
Picks(s, m) ==
    CASE s.type = "logical" -> IF ~IsGrid(m) THEN {} ELSE
           {x \in 0..(NEl(m) - 1) : \A d \in 1..3 : LET q == At3(Coord(EDims(m), x), d) IN s.a[d] <= q /\ q <= s.b[d]}
      [] s.type = "explicit" -> Rng(s.a) \cap 0..(NEl(m) - 1)
      [] s.type = "ranges" -> {x \in 0..(NEl(m) - 1) : \E k \in 1..(Len(s.a) \div 2) : s.a[2 * k - 1] <= x /\ x <= s.a[2 * k]}
      [] OTHER -> 0..(NEl(m) - 1)
Applies(e, s, d) == s.any \/ s.dom = DomId(e, d)
\* picked elements as [d, i] (selections of an event do not overlap)
Picked(e) ==
    IF e.sels = <<>> THEN UNION {{[d |-> d, i |-> i] : i \in 0..(NEl(e.doms[d].m) - 1)} : d \in 1..Len(e.doms)}
    ELSE UNION {UNION {{[d |-> d, i |-> i] : i \in Picks(e.sels[s], e.doms[d].m)} : d \in {d \in 1..Len(e.doms) : Applies(e, e.sels[s], d)}} : s \in 1..Len(e.sels)}
------------------------------------------------------------------------------
Fld(fs, n) == LET k == CHOOSE k \in 1..Len(fs) : fs[k].n = n IN fs[k]
FNames(fs) == {fs[k].n : k \in 1..Len(fs)}
Wanted(e, d) == {n \in FNames(e.doms[d].f) : ~e.fsel \/ n \in Rng(e.flds)}
ValAt(f, i) == [k \in 1..Len(f.c) |-> f.c[k][i + 1]]
\* shape and place of an element, and the values at its points
Geo(P, x) ==
    CASE x.s \in {"tri", "quad", "polygonal"} -> <<2, {<<P[y[1] + 1], P[y[2] + 1]>> : y \in Cyc(x.p)}>>
      [] x.s = "line" -> <<1, {P[x.p[1] + 1], P[x.p[2] + 1]}>>
      [] x.s = "point" -> <<0, {P[x.p[1] + 1]}>>
      [] OTHER -> <<3, {{P[v + 1] : v \in f} : f \in FaceSets(x)}>>
\* the materials of an element: what fraction of it is which
MatAt(m, i) == IF m.form = "" THEN {} ELSE {<<y.n, y.vf>> : y \in {y \in Mats!Frac(m, 0) : y.e = i}}
Desc(P, x, i, fs, names, mat, org) ==
    [mat |-> MatAt(mat, i), geo |-> Geo(P, x),
     el |-> {<<n, ValAt(Fld(fs, n), i)>> : n \in {n \in names : Fld(fs, n).a = "element"}},
     vx |-> {<<n, {<<P[v + 1], ValAt(Fld(fs, n), v)>> : v \in Verts(x)}>> : n \in {n \in names : Fld(fs, n).a = "vertex"}},
     org |-> org]
InDesc(e) == LET M == [d \in 1..Len(e.doms) |-> [E |-> Elems(e.doms[d].m.t, e.doms[d].m.c), P |-> Pts(e.doms[d].m.c)]] IN
    [x \in Picked(e) |-> Desc(M[x.d].P, M[x.d].E[x.i + 1], x.i, e.doms[x.d].f, Wanted(e, x.d), e.doms[x.d].mat, IF e.map THEN <<DomId(e, x.d), x.i>> ELSE <<>>)]
OutDesc(e, o) == LET E == Elems(o.t, o.c) P == Pts(o.c) IN
    [i \in 1..Len(E) |-> Desc(P, E[i], i - 1, o.f, FNames(o.f), o.mat, IF e.map THEN o.ee[i] ELSE <<>>)]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
SameBag(f, s) == LET R == Rng(s) \cup {f[x] : x \in DOMAIN f} IN
    \A r \in R : Cardinality({x \in DOMAIN f : f[x] = r}) = Cardinality({i \in 1..Len(s) : s[i] = r})
\* fields of a part: as long as the part has elements or points, of the type they had
FieldsOk(e, o) == LET n == Len(Elems(o.t, o.c)) p == NPts(o.c) IN
    \A k \in 1..Len(o.f) : LET f == o.f[k] s == Fld(e.doms[1].f, f.n) IN
        /\ f.a = s.a /\ f.tp = "topo" /\ Len(f.c) = Len(s.c) /\ f.t = s.t
        /\ \A c \in 1..Len(f.c) : Len(f.c[c]) = (IF f.a = "element" THEN n ELSE p)
\* a stored material set that makes sense
MatSane(m, n) ==
    /\ \A k \in 1..Len(m.mats) : IF m.form = "full" THEN Len(m.mats[k].vf) = n ELSE Len(m.mats[k].vf) = Len(m.mats[k].e) /\ Rng(m.mats[k].e) \subseteq 0..(n - 1)
    /\ m.form \in {"uni", "unimat"} =>
         /\ Len(m.vf) = Len(m.ids) /\ Len(m.sizes) = Len(m.offsets) /\ Rng(m.ids) \subseteq {m.map[k].id : k \in 1..Len(m.map)}
         /\ Rng(m.indices) \subseteq 0..(Len(m.vf) - 1)
         /\ LET q == IF m.indices # <<>> THEN Len(m.indices) ELSE Len(m.vf) IN
            /\ \A i \in 1..Len(m.sizes) : m.offsets[i] >= 0 /\ m.offsets[i] + m.sizes[i] <= q
            /\ (IF m.sizes # <<>> THEN Len(m.sizes) ELSE q) = (IF m.form = "unimat" THEN Len(m.e) ELSE n)
         /\ Rng(m.e) \subseteq 0..(n - 1)
\* a material set of a part has one entry per element and material and keeps the numbers of materials
MatOk(e, o) == IF e.doms[1].mat.form = "" THEN o.nms = 0 ELSE
    LET named == UNION {Rng(e.doms[d].mat.map) : d \in 1..Len(e.doms)} IN
    /\ o.nms = 1 /\ o.mat.form # "" /\ MatSane(o.mat, Len(Elems(o.t, o.c))) /\ Mats!OneEntryPerMaterial(o.mat)
    /\ Rng(o.mat.map) \subseteq named /\ ((\A d \in 1..Len(e.doms) : e.doms[d].mat.map # <<>>) => Rng(o.mat.map) = named)
\* the origin of a point is a point with the same coordinates
PointsOk(e, o) == ~e.map \/ (Len(o.ve) = NPts(o.c) /\ Len(o.ee) = Len(Elems(o.t, o.c)) /\
    LET P == Pts(o.c) IN \A i \in 1..Len(P) : \E d \in 1..Len(e.doms) :
        /\ DomId(e, d) = o.ve[i][1] /\ o.ve[i][2] \in 0..(NPts(e.doms[d].m.c) - 1) /\ Pts(e.doms[d].m.c)[o.ve[i][2] + 1] = P[i])
NSel(e) == IF e.sels = <<>> THEN Len(e.doms)
           ELSE Cardinality(UNION {{<<s, d>> : d \in {d \in 1..Len(e.doms) : Applies(e, e.sels[s], d) /\ Picks(e.sels[s], e.doms[d].m) # {}}} : s \in 1..Len(e.sels)})
IsField(e) == \E s \in 1..Len(e.sels) : e.sels[s].type = "field"
PartOf(e) == UNION {Rng(Fld(e.doms[d].f, "part").c[1]) : d \in 1..Len(e.doms)}
NOut(e) == IF e.target > 0 THEN e.target ELSE NSel(e)
\* more parts than elements: an error, or one part per element
Beyond(e) == e.target > Cardinality(Picked(e))
CountOk(e) ==
    LET D == e.out.doms IN
    IF IsField(e) THEN /\ {D[k].id : k \in 1..Len(D)} = PartOf(e) /\ Len(D) = Cardinality(PartOf(e))
                       /\ \A k \in 1..Len(D) : \A i \in 1..Len(Fld(D[k].f, "part").c[1]) : Fld(D[k].f, "part").c[1][i] = D[k].id
    ELSE Len(D) = (IF Beyond(e) THEN Cardinality(Picked(e)) ELSE NOut(e))
\* points of the picked elements
PickedPts(e, d) == LET E == Elems(e.doms[d].m.t, e.doms[d].m.c) IN UNION {Verts(E[x.i + 1]) : x \in {x \in Picked(e) : x.d = d}}
PickedCoords(e) == UNION {{Pts(e.doms[d].m.c)[v + 1] : v \in PickedPts(e, d)} : d \in 1..Len(e.doms)}
HomeOk(e) ==
    /\ e.out.psrc /\ Len(e.out.home) = Len(e.doms)
    /\ \A h \in 1..Len(e.out.home) : LET H == e.out.home[h] src == e.doms[H.k].f IN
         /\ H.rest /\ FNames(H.f) = FNames(src)
         /\ \A k \in 1..Len(src) : LET f == Fld(H.f, src[k].n) by == IF src[k].n \in Rng(e.bf) THEN e.by ELSE 0 IN
              /\ f.a = src[k].a /\ f.tp = "topo" /\ f.t = src[k].t
              /\ Len(f.c) = Len(src[k].c)
              /\ LET must == IF f.a = "element" THEN {x.i : x \in {x \in Picked(e) : x.d = H.k}} ELSE PickedPts(e, H.k)
                     may == IF f.a = "element" THEN must ELSE {v \in 0..(NPts(e.doms[H.k].m.c) - 1) : Pts(e.doms[H.k].m.c)[v + 1] \in PickedCoords(e)}
                 IN \A c \in 1..Len(f.c) : /\ Len(f.c[c]) = Len(src[k].c[c])
                                           /\ \A i \in 1..Len(f.c[c]) : \/ f.c[c][i] = src[k].c[c][i] + by /\ i - 1 \in may
                                                                        \/ f.c[c][i] = src[k].c[c][i] /\ i - 1 \notin must
Why(e) ==
    IF Beyond(e) /\ ~e.out.ok THEN "" ELSE IF ~e.out.ok THEN "error" ELSE IF ~e.out.src THEN "source changed" ELSE IF ~CountOk(e) THEN "count"
    ELSE LET D == e.out.doms IN
    IF \E a, b \in 1..Len(D) : a # b /\ D[a].id = D[b].id THEN "ids"
    ELSE IF \E k \in 1..Len(D) : ~D[k].ver THEN "verify"
    ELSE IF \E k \in 1..Len(D) : D[k].t.mixed THEN "mixed"
    ELSE IF \E k \in 1..Len(D) : FNames(D[k].f) # UNION {Wanted(e, d) : d \in 1..Len(e.doms)} \/ D[k].has # (IF e.map THEN 3 ELSE 0) THEN "field names"
    ELSE IF \E k \in 1..Len(D) : ~FieldsOk(e, D[k]) THEN "field lengths"
    ELSE IF \E k \in 1..Len(D) : ~MatOk(e, D[k]) THEN "materials"
    ELSE IF \E k \in 1..Len(D) : ~PointsOk(e, D[k]) THEN "origins"
    ELSE IF ~SameBag(InDesc(e), Concat([k \in 1..Len(D) |-> OutDesc(e, D[k])])) THEN "elements"
    ELSE IF \E k \in 1..Len(D) : D[k].cyc # e.doms[1].cyc THEN "state"
    ELSE IF e.back /\ ~HomeOk(e) THEN "map back"
    ELSE IF e.raw /\ \E k \in 1..Len(D) : D[k].emat > 0 THEN "empty nodes for the materials that no element of a part contains" ELSE ""
Valid(e) == Why(e) = ""
Show(e) == IF ~e.out.ok THEN <<"error", e.out.err>> ELSE <<Why(e)>>
=============================================================================
