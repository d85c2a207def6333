------------------------------- MODULE BpFiles -------------------------------
(* relay::io::blueprint: multi-domain meshes saved as a root file and a set  *)
(* of data files. A domain is its set of leaves [p |-> path, t |-> type,     *)
(* v |-> value]; a root file holds named meshes, each a sequence of domains. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [roots |-> <<>>, protos |-> <<>>, files |-> {}, cnt |-> <<>>]
ToSet(s) == {s[i] : i \in 1..Len(s)}
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Pad(n) == LET s == ToString(n) IN
          CASE n < 10 -> "00000" \o s [] n < 100 -> "0000" \o s [] n < 1000 -> "000" \o s [] n < 10000 -> "00" \o s [] n < 100000 -> "0" \o s [] OTHER -> s
\* the suffix: a cycle, if asked for or present; a counter stands in for it
NeedCnt(e) == e.suffix = "cycle" /\ e.cycle < 0
Stem(st, e) == LET none == e.suffix = "none" \/ (e.suffix = "default" /\ e.cycle < 0) IN
               IF none THEN e.path ELSE e.path \o ".cycle_" \o Pad(IF NeedCnt(e) THEN At(st.cnt, e.path, 0) ELSE e.cycle)
Root(st, e) == Stem(st, e) \o ".root"
Style(e) == IF e.style = "default" THEN IF Len(e.doms) > 1 THEN "multi_file" ELSE "root_only" ELSE e.style
NFiles(e) == IF e.nf <= 0 \/ e.nf > Len(e.doms) THEN Len(e.doms) ELSE e.nf
\* domains of a file set are numbered from 0 in order
Numbered(d, i) == {x \in d : x.p # "state/domain_id"} \cup {[p |-> "state/domain_id", t |-> "", v |-> ToString(i - 1)]}
Written(e) == [i \in 1..Len(e.doms) |-> Numbered(ToSet(e.doms[i]), i)]
DataFiles(st, e) ==
    LET d == Stem(st, e) n == Len(e.doms) k == NFiles(e) IN
    IF Style(e) = "root_only" THEN {}
    ELSE IF k = n THEN {d \o "/domain_" \o Pad(i) \o "." \o e.proto : i \in 0..(n - 1)}
    ELSE {d \o "/file_" \o Pad(i) \o "." \o e.proto : i \in 0..(k - 1)}
Save(st, e) ==
    LET r == Root(st, e)
        old == IF e.trunc THEN <<>> ELSE At(st.roots, r, <<>>)
    IN [roots |-> (r :> ((e.name :> Written(e)) @@ old)) @@ st.roots,
        protos |-> (r :> e.proto) @@ st.protos,
        files |-> st.files \cup {r} \cup DataFiles(st, e),
        cnt |-> IF NeedCnt(e) THEN (e.path :> (At(st.cnt, e.path, 0) + 1)) @@ st.cnt ELSE st.cnt]
SaveOk(st, e) == /\ e.out.ok /\ e.out.src
                 /\ ToSet(e.out.files) = Save(st, e).files
\* a file set made by other means: named files and trees, in any order
Foreign(st, e) == [st EXCEPT !.roots = (e.root :> (e.name :> Written(e))) @@ @, !.protos = (e.root :> e.proto) @@ @, !.files = @ \cup ToSet(e.new)]
ForeignOk(st, e) == e.out.ok
------------------------------------------------------------------------------
\* text formats keep values, not widths
Same(proto, got, want) ==
    LET G == ToSet(got) typed == proto = "hdf5" IN
    IF typed THEN {IF x.p = "state/domain_id" THEN [x EXCEPT !.t = ""] ELSE x : x \in G} = want
    ELSE {[p |-> x.p, v |-> x.v] : x \in G} = {[p |-> x.p, v |-> x.v] : x \in want}
LoadOk(st, e) ==
    LET known == e.root \in DOMAIN st.roots
        ms == IF known THEN st.roots[e.root] ELSE <<>>
        ok == known /\ (e.name = "" \/ e.name \in DOMAIN ms)
        Is(nm) == LET w == ms[nm] IN
                  /\ Len(e.out.doms) = Len(w)
                  /\ \A i \in 1..Len(w) : \E k \in 1..Len(e.out.doms) :
                       e.out.doms[k].n = "domain_" \o Pad(i - 1) /\ Same(st.protos[e.root], e.out.doms[k].e, w[i])
    IN /\ e.out.ok = ok /\ e.out.agree
       /\ ok => /\ IF e.name # "" THEN Is(e.name) ELSE \E nm \in DOMAIN ms : Is(nm)
                \* every rank reads a consecutive block
                /\ \A i, j \in 1..Len(e.out.doms) : i < j => e.out.doms[i].r <= e.out.doms[j].r
\* the map from domains to files: whole, in order, as even as can be
MapOk(e) == LET m == e.out.d2f per == [f \in 1..e.nf |-> Cardinality({i \in 1..Len(m) : m[i] = f - 1})] IN
            /\ Len(m) = e.nd /\ \A i \in 1..Len(m) : m[i] \in 0..(e.nf - 1) /\ (i > 1 => m[i] >= m[i - 1])
            /\ e.out.per = per
            /\ \A f \in 1..e.nf : per[f] \in {e.nd \div e.nf, e.nd \div e.nf + 1}
            /\ e.out.off = [f \in 1..e.nf |-> Cardinality({i \in 1..Len(m) : m[i] < f - 1})]
Valid(st, e) == CASE e.op = "save" -> SaveOk(st, e) [] e.op = "load" -> LoadOk(st, e) [] e.op = "map" -> MapOk(e) [] e.op = "foreign" -> ForeignOk(st, e)
Next(st, e) == CASE e.op = "save" -> Save(st, e) [] e.op = "foreign" -> Foreign(st, e) [] OTHER -> st
Show(st, e) == IF e.op = "save" THEN <<Root(st, e), Save(st, e).files>> ELSE IF e.op = "load" THEN <<DOMAIN st.roots, IF e.root \in DOMAIN st.roots THEN st.roots[e.root] ELSE <<>>>> ELSE <<>>
==============================================================================
