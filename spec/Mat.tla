--------------------------------- MODULE Mat ---------------------------------
(* Material sets: which volume fraction of which material is in which        *)
(* element, for every way to store that; material dependent fields; species. *)
(* Fractions are in 32nds, values whole numbers.                             *)
(* [form, map, mats, ids, vf, e, sizes, offsets, indices]:                   *)
(*   form "full": mats[i] = [n, vf]; "bymat": [n, vf, e];                    *)
(*   "uni": ids, vf and the relation; "unimat": also e (element of each one) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prefix(s) == LET RECURSIVE F(_, _)
                 F(i, a) == IF i > Len(s) THEN <<>> ELSE <<a>> \o F(i + 1, a + s[i]) IN F(1, 0)
NameOf(map, id) == LET k == CHOOSE k \in 1..Len(map) : map[k].id = id IN map[k].n
\* the positions (from 1) the relation gives to each one
Groups(m) == IF m.sizes = <<>> THEN LET ix == IF m.indices # <<>> THEN m.indices ELSE [i \in 1..Len(m.vf) |-> i - 1] IN [i \in 1..Len(ix) |-> <<ix[i] + 1>>]
             ELSE [i \in 1..Len(m.sizes) |-> [k \in 1..m.sizes[i] |-> (IF m.indices # <<>> THEN m.indices[m.offsets[i] + k] ELSE m.offsets[i] + k - 1) + 1]]
\* entries [e, n, q]: q is the position of the entry in the value arrays of material n (or the shared ones)
Entries(m) ==
    CASE m.form = "full" -> UNION {{[e |-> i - 1, n |-> m.mats[k].n, vf |-> m.mats[k].vf[i], q |-> i] : i \in 1..Len(m.mats[k].vf)} : k \in 1..Len(m.mats)}
      [] m.form = "bymat" -> UNION {{[e |-> m.mats[k].e[i], n |-> m.mats[k].n, vf |-> m.mats[k].vf[i], q |-> i] : i \in 1..Len(m.mats[k].vf)} : k \in 1..Len(m.mats)}
      [] OTHER -> LET G == Groups(m) IN UNION {{[e |-> IF m.form = "unimat" THEN m.e[i] ELSE i - 1, n |-> NameOf(m.map, m.ids[G[i][k]]), vf |-> m.vf[G[i][k]], q |-> G[i][k]] : k \in 1..Len(G[i])} : i \in 1..Len(G)}
Frac(m, eps) == {[e |-> x.e, n |-> x.n, vf |-> x.vf] : x \in {x \in Entries(m) : x.vf > eps}}
\* the value of a field (per material arrays, or one array) at an entry
ValAt(m, f, x) == IF m.form \in {"full", "bymat"} THEN LET k == CHOOSE k \in 1..Len(f.mats) : f.mats[k].n = x.n IN f.mats[k].v[x.q] ELSE f.v[x.q]
Vals(m, f, eps) == {[e |-> x.e, n |-> x.n, v |-> ValAt(m, f, x)] : x \in {x \in Entries(m) : x.vf > eps}}
MatNames(m) == IF m.form \in {"full", "bymat"} THEN {m.mats[k].n : k \in 1..Len(m.mats)} ELSE {m.map[k].n : k \in 1..Len(m.map)}
Used(m, eps) == {x.n : x \in Frac(m, eps)}
OneEntryPerMaterial(m) == Cardinality({<<x.e, x.n>> : x \in Entries(m)}) = Cardinality({<<x.e, x.n, x.q>> : x \in Entries(m)})
------------------------------------------------------------------------------
Form(to) == CASE to = "full" -> "full" [] to = "byelem" -> "uni" [] to = "bymat" -> "bymat"
ConvOk(e) ==
    LET eps == IF e.to = "full" \/ e.m.form # "full" THEN 0 ELSE e.eps IN
    /\ e.out.ok /\ e.out.src /\ e.out.ver /\ e.out.top
    /\ e.out.m.form = Form(e.to)
    /\ Used(e.m, eps) \subseteq MatNames(e.out.m) /\ MatNames(e.out.m) \subseteq MatNames(e.m)
    \* (values of a set that has the form already are copied)
    /\ LET k == IF e.m.form = Form(e.to) THEN 0 ELSE eps IN
       /\ Frac(e.out.m, 0) = Frac(e.m, k)
       /\ OneEntryPerMaterial(e.out.m)
       /\ e.fld => /\ Vals(e.out.m, e.out.f, 0) = Vals(e.m, e.f, k)
                   /\ e.out.f.name /\ e.out.f.rest
\* silo: matlist per element (a material, or a chain of mixed slots)
RECURSIVE Chain(_, _)
Chain(o, s) == IF s = 0 THEN <<>> ELSE <<s>> \o Chain(o, o.next[s])
Slots(o, i) == IF o.matlist[i] >= 0 THEN <<>> ELSE Chain(o, -o.matlist[i])
SiloOk(e) ==
    LET o == e.out F == Frac(e.m, e.eps) N == Cardinality({x.e : x \in Entries(e.m)}) IN
    /\ o.ok /\ o.src /\ o.top
    /\ Len(o.matlist) = N
    /\ Len(o.mat) = Len(o.next) /\ Len(o.vf) = Len(o.next)
    /\ \A i \in 1..N : LET at == {x \in F : x.e = i - 1} s == Slots(o, i) IN
         IF Cardinality(at) = 1 THEN o.matlist[i] >= 0 /\ {NameOf(o.map, o.matlist[i])} = {x.n : x \in at}
         ELSE /\ Len(s) = Cardinality(at)
              /\ {[e |-> i - 1, n |-> NameOf(o.map, o.mat[s[k]]), vf |-> o.vf[s[k]]] : k \in 1..Len(s)} = at
              /\ e.fld => {[e |-> i - 1, n |-> NameOf(o.map, o.mat[s[k]]), v |-> o.fv[s[k]]] : k \in 1..Len(s)} = {x \in Vals(e.m, e.f, e.eps) : x.e = i - 1}
    /\ LET used == UNION {{Slots(o, i)[k] : k \in 1..Len(Slots(o, i))} : i \in 1..N} IN used = 1..Len(o.next)
    /\ (e.m.map # <<>> => {o.map[k] : k \in 1..Len(o.map)} = {e.m.map[k] : k \in 1..Len(e.m.map)})
    /\ (e.fld => o.rest)
\* species: sp[k] = [n |-> material, s |-> seq of [n, mf]]
SpecOk(e) ==
    LET o == e.out F == Frac(e.m, 0) N == Cardinality({x.e : x \in Entries(e.m)})
        SpOf(name) == LET k == CHOOSE k \in 1..Len(e.sp) : e.sp[k].n = name IN e.sp[k].s
        RECURSIVE Names(_)
        Names(k) == IF k > Len(e.sp) THEN <<>> ELSE [j \in 1..Len(e.sp[k].s) |-> e.sp[k].s[j].n] \o Names(k + 1)
        MfOf(name, el) == [j \in 1..Len(SpOf(name)) |-> SpOf(name)[j].mf[el + 1]]
        Got(p, n) == [j \in 1..n |-> o.mf[p + j - 1]] IN
    /\ o.ok /\ o.src
    /\ o.nmat = Len(e.sp) /\ o.nmatspec = [k \in 1..Len(e.sp) |-> Len(e.sp[k].s)]
    /\ o.names = Names(1)
    /\ o.nmf = Len(o.mf) /\ o.mixlen = Len(o.mix) /\ Len(o.list) = N
    /\ \A i \in 1..N : LET at == {x \in F : x.e = i - 1} s == Slots(o, i) IN
         IF Cardinality(at) = 1 THEN LET n == (CHOOSE x \in at : TRUE).n IN o.list[i] > 0 /\ Got(o.list[i], Len(SpOf(n))) = MfOf(n, i - 1)
         ELSE o.list[i] < 0 /\ \A k \in 1..Len(s) : LET n == NameOf(o.map, o.mat[s[k]]) IN Got(o.mix[-o.list[i] + k - 1], Len(SpOf(n))) = MfOf(n, i - 1)
ClassOk(e) == /\ e.out.ver
              /\ e.out.multi = (e.m.form \in {"full", "bymat"}) /\ e.out.uni = ~e.out.multi
              /\ e.out.matdom = (e.m.form \in {"bymat", "unimat"}) /\ e.out.eldom = ~e.out.matdom
Valid(e) == CASE e.op = "conv" -> ConvOk(e) [] e.op = "silo" -> SiloOk(e) [] e.op = "spec" -> SpecOk(e) [] e.op = "class" -> ClassOk(e)
Show(e) == IF e.op # "class" /\ ~e.out.ok THEN e.out.err ELSE <<Frac(e.m, 0), IF e.fld THEN Vals(e.m, e.f, 0) ELSE {}>>
==============================================================================
