-------------------------------- MODULE Adj ---------------------------------
(* Adjacency sets of meshes split over domains.  Points carry global ids, so *)
(* "the same entity" in two domains is the same set of global ids.  A domain *)
(* is [id, el]: its id and its elements, each a sequence of faces (2D: one), *)
(* each a cycle of global point ids.  A group is [n, nb, v]: its name, its   *)
(* neighbours and its entries.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Distinct(s) == Cardinality(Range(s)) = Len(s)
Doms(e) == 1..Len(e.doms)
\* ------------------------------------------------------------- entities
CycleEdges(f) == {{f[i], f[(i % Len(f)) + 1]} : i \in 1..Len(f)}
ElPoints(x) == UNION {Range(x[i]) : i \in 1..Len(x)}
ElEdges(x) == UNION {CycleEdges(x[i]) : i \in 1..Len(x)}
ElFaces(x) == {Range(x[i]) : i \in 1..Len(x)}
Points(d) == {{p} : p \in UNION {ElPoints(x) : x \in Range(d.el)}}
Edges(d) == UNION {ElEdges(x) : x \in Range(d.el)}
Faces(d) == UNION {ElFaces(x) : x \in Range(d.el)}
Cells(d) == {ElPoints(x) : x \in Range(d.el)}
EdgeUses(d, y) == Cardinality({i \in 1..Len(d.el) : y \in ElEdges(d.el[i])})
\* the entities a derived topology consists of
Ents(e, d) == CASE e.fun = "points" -> Points(d) [] e.fun = "lines" -> Edges(d) [] e.fun = "faces" -> Faces(d)
                [] e.fun = "centroids" -> Cells(d)
                [] e.fun = "sides" -> Points(d) \cup (IF e.dim = 3 THEN Faces(d) ELSE {})
                [] e.fun = "corners" -> Points(d) \cup Edges(d) \cup (IF e.dim = 3 THEN Faces(d) ELSE {})
Others(e, ent, k, x) == {j \in Doms(e) \ {k} : x \in ent[j]}
Ids(e, js) == {e.doms[j].id : j \in js}
SortedIds(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RECURSIVE JoinIds(_)
JoinIds(s) == IF s = <<>> THEN "" ELSE "_" \o ToString(Head(s)) \o JoinIds(Tail(s))
Name(S) == "group" \o JoinIds(SortedIds(S))
\* ------------------------------------------------------------- well-formed results
\* groups of domain k: named after their members, entered once, entries once
Tidy(e, k, gs) ==
    /\ \A i \in 1..Len(gs) : Distinct(gs[i].nb) /\ Len(gs[i].nb) > 0 /\ gs[i].n = Name(Range(gs[i].nb) \cup {e.doms[k].id})
    /\ \A i, j \in 1..Len(gs) : i # j => gs[i].n # gs[j].n
    /\ \A i \in 1..Len(gs) : Distinct(gs[i].v) /\ Len(gs[i].v) > 0
\* all members of a group list the same entries in the same order
Agree(e, out) ==
    \A k \in Doms(e) : \A i \in 1..Len(out[k]) : \A b \in Range(out[k][i].nb) :
        \E j \in Doms(e) : e.doms[j].id = b /\ \E m \in 1..Len(out[j]) : out[j][m].n = out[k][i].n /\ out[j][m].v = out[k][i].v
\* neighbours an entry is listed with
With(gs, x) == UNION {Range(gs[i].nb) : i \in {i \in 1..Len(gs) : x \in Range(gs[i].v)}}
Listed(gs) == UNION {Range(gs[i].v) : i \in 1..Len(gs)}
Once(gs) == \A i, j \in 1..Len(gs) : i # j => Range(gs[i].v) \cap Range(gs[j].v) = {}
\* ------------------------------------------------------------- derived and decomposed entities
\* an entry of a derived adjset is a sorted sequence of point ids, one of a decomposed adjset a position
Key(e, x) == IF e.fun \in {"points", "lines", "faces"} THEN SetToSortSeq(x, LAMBDA a, b : a < b)
             ELSE [i \in 1..e.dim |-> (e.unit * MapThenSumSet(LAMBDA p : e.pts[p + 1][i], x)) \div Cardinality(x)]
Shared(e, ent, k) == {x \in ent[k] : Others(e, ent, k, x) # {}}
DeriveOK(e) ==
    LET ent == [k \in Doms(e) |-> Ents(e, e.doms[k])] o == e.out IN
    /\ o.ok /\ o.src
    /\ Agree(e, o.g)
    /\ \A k \in Doms(e) :
        LET gs == o.g[k] d == e.doms[k] IN
        /\ Tidy(e, k, gs) /\ Once(gs)
        /\ e.fun \in {"points", "lines", "faces"} =>
             Distinct(o.all[k]) /\ Range(o.all[k]) = {Key(e, x) : x \in ent[k]}
        /\ IF e.fun = "lines" /\ e.dim = 3
           THEN \* edges used by several elements of a domain may be left out
                LET once == [j \in Doms(e) |-> {x \in ent[j] : EdgeUses(e.doms[j], x) = 1}] IN
                /\ \A x \in Shared(e, once, k) : Ids(e, Others(e, once, k, x)) \subseteq With(gs, Key(e, x))
                /\ \A y \in Listed(gs) : \E x \in ent[k] : Key(e, x) = y /\ With(gs, y) \subseteq Ids(e, Others(e, ent, k, x))
           ELSE /\ Listed(gs) = {Key(e, x) : x \in Shared(e, ent, k)}
                /\ \A x \in Shared(e, ent, k) : With(gs, Key(e, x)) = Ids(e, Others(e, ent, k, x))
\* ------------------------------------------------------------- conversions
Rel(gs) == UNION {{<<b, x>> : b \in Range(gs[i].nb), x \in Range(gs[i].v)} : i \in 1..Len(gs)}
Pairwise(gs) == \A i \in 1..Len(gs) : Len(gs[i].nb) = 1
RECURSIVE Cat(_)
Cat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs).v \o Cat(Tail(gs))
Maxshare(gs) == Distinct(Cat(gs))
ConvOK(e) ==
    LET o == e.out IN
    /\ o.ok /\ o.src /\ o.rest
    /\ Agree(e, o.g)
    /\ \A k \in Doms(e) :
        /\ Tidy(e, k, o.g[k]) /\ Rel(o.g[k]) = Rel(e.adj[k])
        /\ IF e.fun = "pairwise" THEN Pairwise(o.g[k]) ELSE Maxshare(o.g[k])
        /\ o.pin[k] = Pairwise(e.adj[k]) /\ o.min[k] = Maxshare(e.adj[k])
        /\ o.pout[k] = Pairwise(o.g[k]) /\ o.mout[k] = Maxshare(o.g[k])
\* ------------------------------------------------------------- painting
PaintOK(e) ==
    LET o == e.out IN
    /\ o.ok /\ o.src
    /\ \A k \in Doms(e) : LET gs == e.adj[k] lp == e.lp[k] IN
        /\ o.cnt[k] = [i \in 1..Len(lp) |-> Cardinality({j \in 1..Len(gs) : lp[i] \in Range(gs[j].v)})]
        /\ Len(o.ord[k]) = Len(gs)
        /\ \A j \in 1..Len(gs) : \E m \in 1..Len(gs) : o.ord[k][m].n = gs[j].n /\
             o.ord[k][m].v = [i \in 1..Len(lp) |-> IF lp[i] \in Range(gs[j].v) THEN (CHOOSE q \in 1..Len(gs[j].v) : gs[j].v[q] = lp[i]) - 1 ELSE -1]
\* ------------------------------------------------------------- validation
\* every entry exists at the neighbour: vertices as points of its mesh (and the two refer to each
\* other), elements as entries it lists for this domain
Refs(gs) == UNION {Range(gs[i].nb) : i \in 1..Len(gs)}
DomOf(e, b) == CHOOSE j \in Doms(e) : e.doms[j].id = b
Sound(e) ==
    LET g == e.out.g pts == [k \in Doms(e) |-> UNION {ElPoints(x) : x \in Range(e.doms[k].el)}] IN
    \A k \in Doms(e) : \A i \in 1..Len(g[k]) : \A b \in Range(g[k][i].nb) : LET j == DomOf(e, b) IN
        IF e.fun = "vertex"
        THEN e.doms[k].id \in Refs(g[j]) /\ \A x \in Range(g[k][i].v) : Range(x) \subseteq pts[j]
        ELSE \A x \in Range(g[k][i].v) : <<e.doms[k].id, x>> \in Rel(g[j])
ValidateOK(e) == e.out.ok /\ e.out.src /\ e.out.same /\ e.out.val = Sound(e) /\ e.out.info = ~e.out.val
Valid(e) == CASE e.op = "derive" -> DeriveOK(e) [] e.op = "conv" -> ConvOK(e) [] e.op = "paint" -> PaintOK(e) [] e.op = "validate" -> ValidateOK(e)
Show(e) == IF e.op = "derive"
           THEN LET ent == [k \in Doms(e) |-> Ents(e, e.doms[k])] IN
                [k \in Doms(e) |-> {<<Key(e, x), Ids(e, Others(e, ent, k, x))>> : x \in Shared(e, ent, k)}]
           ELSE IF e.op = "validate" THEN Sound(e) ELSE IF e.op = "conv" THEN [k \in Doms(e) |-> Rel(e.adj[k])] ELSE e.adj
=============================================================================
