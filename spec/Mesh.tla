-------------------------------- MODULE Mesh --------------------------------
(* What a Blueprint mesh means: a sequence of points and a sequence of       *)
(* elements, each a shape with point numbers (polyhedra: with faces), for    *)
(* every way to describe them.  Records as the drivers write them:           *)
(* coords [type, ax, v, dims, org, sp]                                       *)
(* topo   [type, shape, conn, sizes, offsets, sshape, sconn, ssizes,         *)
(*         soffsets, dims, org, doff, dstr]                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC
SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prefix(s) == [i \in 1..Len(s) |-> SumS(SubSeq(s, 1, i - 1))]
Rng(s) == {s[i] : i \in 1..Len(s)}
------------------------------------------------------------------------------
(* points                                                                    *)
Axis(c, d) == IF c.type = "uniform"
              THEN [i \in 1..c.dims[d] |-> (IF c.org = <<>> THEN 0 ELSE c.org[d]) + (i - 1) * (IF c.sp = <<>> THEN 1 ELSE c.sp[d])]
              ELSE c.v[d]
NAx(c) == IF c.type = "uniform" THEN Len(c.dims) ELSE Len(c.v)
PDims(c) == [d \in 1..NAx(c) |-> IF c.type = "uniform" THEN c.dims[d] ELSE Len(c.v[d])]
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* logical coordinates of entry id (from 0) of a grid, first dimension fastest
Coord(dims, id) == [d \in 1..Len(dims) |-> (id \div Prod(SubSeq(dims, 1, d - 1))) % dims[d]]
NPts(c) == IF c.type = "explicit" THEN Len(c.v[1]) ELSE Prod(PDims(c))
Pts(c) == IF c.type = "explicit" THEN [i \in 1..Len(c.v[1]) |-> [d \in 1..Len(c.v) |-> c.v[d][i]]]
          ELSE LET D == PDims(c) A == [d \in 1..Len(D) |-> Axis(c, d)] IN
               [i \in 1..Prod(D) |-> LET q == Coord(D, i - 1) IN [d \in 1..Len(D) |-> A[d][q[d] + 1]]]
------------------------------------------------------------------------------
(* elements: [s |-> shape, p |-> point numbers from 0, f |-> faces]          *)
Arity(s) == CASE s = "point" -> 1 [] s = "line" -> 2 [] s = "tri" -> 3 [] s = "quad" -> 4 [] s = "tet" -> 4 [] s = "hex" -> 8 [] s = "wedge" -> 6 [] s = "pyramid" -> 5
ShapeDim(s) == CASE s = "point" -> 0 [] s = "line" -> 1 [] s \in {"tri", "quad", "polygonal"} -> 2 [] OTHER -> 3
El(s, p) == [s |-> s, p |-> p, f |-> <<>>]
GShape(n) == <<"line", "quad", "hex">>[n]
Corner(n) == CASE n = 1 -> <<<<0>>, <<1>>>>
               [] n = 2 -> <<<<0,0>>, <<1,0>>, <<1,1>>, <<0,1>>>>
               [] OTHER -> <<<<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>>>>
GridElems(E, off, str) ==
    LET n == Len(E) C == Corner(n) IN
    [i \in 1..Prod(E) |-> LET q == Coord(E, i - 1) IN
        El(GShape(n), [k \in 1..Len(C) |-> SumS([d \in 1..n |-> (off[d] + q[d] + C[k][d]) * str[d]])])]
Plain(E) == GridElems(E, [d \in 1..Len(E) |-> 0], [d \in 1..Len(E) |-> Prod([k \in 1..(d - 1) |-> E[k] + 1])])
Slices(conn, sizes, offsets) == LET o == IF offsets = <<>> THEN Prefix(sizes) ELSE offsets IN
    [i \in 1..Len(sizes) |-> [k \in 1..sizes[i] |-> conn[o[i] + k]]]
Elems(t, c) ==
    CASE t.type = "points" -> [i \in 1..NPts(c) |-> El("point", <<i - 1>>)]
      [] t.type \in {"uniform", "rectilinear"} -> Plain([d \in 1..NAx(c) |-> PDims(c)[d] - 1])
      [] t.type = "structured" -> IF t.dstr = <<>> /\ t.doff = <<>> THEN Plain(t.dims)
                                  ELSE GridElems(t.dims, IF t.doff = <<>> THEN [d \in 1..Len(t.dims) |-> 0] ELSE t.doff,
                                                 IF t.dstr = <<>> THEN [d \in 1..Len(t.dims) |-> Prod([k \in 1..(d - 1) |-> t.dims[k] + 1 + (IF t.doff = <<>> THEN 0 ELSE t.doff[k])])] ELSE t.dstr)
      [] t.shape = "polygonal" -> LET s == Slices(t.conn, t.sizes, t.offsets) IN [i \in 1..Len(s) |-> El("polygonal", s[i])]
      [] t.shape = "polyhedral" -> LET F == Slices(t.sconn, t.ssizes, t.soffsets) s == Slices(t.conn, t.sizes, t.offsets) IN
                                   [i \in 1..Len(s) |-> [s |-> "polyhedral", p |-> <<>>, f |-> [k \in 1..Len(s[i]) |-> F[s[i][k] + 1]]]]
      [] OTHER -> LET a == Arity(t.shape) IN [i \in 1..(Len(t.conn) \div a) |-> El(t.shape, SubSeq(t.conn, (i - 1) * a + 1, i * a))]
TopoDim(t, c) == IF t.type = "points" THEN 0 ELSE IF t.type = "unstructured" THEN ShapeDim(t.shape) ELSE IF t.type = "structured" THEN Len(t.dims) ELSE NAx(c)
------------------------------------------------------------------------------
(* faces, edges and points of an element; faces keep their cyclic order      *)
TetF == <<<<1,3,2>>, <<1,2,4>>, <<1,4,3>>, <<2,3,4>>>>
HexF == <<<<1,4,3,2>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,4,8,7>>, <<4,1,5,8>>, <<5,6,7,8>>>>
\* the quadrilateral faces of wedges and pyramids count as two triangles each
WedgeF == <<<<1,2,3>>, <<1,2,4>>, <<2,4,5>>, <<2,3,5>>, <<3,5,6>>, <<3,1,6>>, <<1,6,4>>, <<4,5,6>>>>
PyrF == <<<<1,2,3>>, <<4,3,1>>, <<1,2,5>>, <<2,3,5>>, <<3,4,5>>, <<4,1,5>>>>
By(t, p) == [i \in 1..Len(t) |-> [k \in 1..Len(t[i]) |-> p[t[i][k]]]]
Faces(e) == CASE e.s = "tet" -> By(TetF, e.p) [] e.s = "hex" -> By(HexF, e.p) [] e.s = "polyhedral" -> e.f [] e.s = "wedge" -> By(WedgeF, e.p) [] e.s = "pyramid" -> By(PyrF, e.p)
              [] e.s \in {"tri", "quad", "polygonal"} -> <<e.p>> [] OTHER -> <<>>
Cyc(f) == {<<f[i], f[(i % Len(f)) + 1]>> : i \in 1..Len(f)}       \* directed edges
Edges(e) == IF e.s = "line" THEN {{e.p[1], e.p[2]}} ELSE UNION {{{x[1], x[2]} : x \in Cyc(Faces(e)[i])} : i \in 1..Len(Faces(e))}
Verts(e) == IF e.s = "polyhedral" THEN UNION {Rng(e.f[i]) : i \in 1..Len(e.f)} ELSE Rng(e.p)
FaceSets(e) == {Rng(Faces(e)[i]) : i \in 1..Len(Faces(e))}
Entities(e, d) == CASE d = 0 -> {{v} : v \in Verts(e)} [] d = 1 -> Edges(e) [] d = 2 -> FaceSets(e) [] OTHER -> {Verts(e)}
\* averages: all coordinates are multiples of enough factors
RECURSIVE SumCoord(_, _, _)
SumCoord(P, V, d) == IF V = {} THEN 0 ELSE LET v == CHOOSE x \in V : TRUE IN P[v + 1][d] + SumCoord(P, V \ {v}, d)
Center(P, V) == [d \in 1..Len(P[1]) |-> SumCoord(P, V, d) \div Cardinality(V)]
=============================================================================
