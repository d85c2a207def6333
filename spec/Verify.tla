------------------------------- MODULE Verify -------------------------------
(* The mesh blueprint: which trees are meshes (and coordsets, topologies,    *)
(* matsets, specsets, fields, adjsets, nestsets, and indices of each), and   *)
(* the index and the domains of a mesh.  Trees are value trees as in         *)
(* Tree.tla whose element values are written as text.                        *)
EXTENDS BpRules
Str(t) == t.k = "d" /\ t.t = "char8_str"
IsInt(t) == t.k = "d" /\ t.t \in IntTypes
Enum(t, S) == Str(t) /\ t.v[1] \in S
StrF(t, x) == Has(t, x) /\ Str(Kid(t, x))
IntF(t, x) == Has(t, x) /\ IsInt(Kid(t, x))
EnumF(t, x, S) == Has(t, x) /\ Enum(Kid(t, x), S)
ObjF(t, x) == Has(t, x) /\ Kid(t, x).k = "o" /\ Kid(t, x).ch # <<>>
Opt(t, x, P(_)) == Has(t, x) => P(Kid(t, x))
Each(t, P(_)) == \A i \in 1..Len(t.ch) : P(t.ch[i])
Text(t, x) == Kid(t, x).v[1]
------------------------------------------------------------------------------
O2(t) == /\ t.k = "o"
         /\ \A x \in Meta : Has(t, x) => IsInt(Kid(t, x))
         /\ Has(t, "sizes") = Has(t, "offsets")
         /\ (Has(t, "sizes") /\ Has(t, "offsets")) => Kid(t, "sizes").n = Kid(t, "offsets").n
         /\ \E i \in 1..Len(t.ch) : t.nm[i] \notin Meta /\ Num(t.ch[i])
LDims(t) == IntF(t, "i") /\ (Has(t, "j") => IntF(t, "j")) /\ (Has(t, "k") => IntF(t, "k"))
Assoc(t) == Enum(t, {"vertex", "element"})
AssocF(t) == Has(t, "association") /\ Assoc(Kid(t, "association"))
Axes == {"x", "y", "z", "r", "theta", "phi"}
CTypes == {"uniform", "rectilinear", "explicit"}
TTypes == {"points", "uniform", "rectilinear", "structured", "unstructured"}
Shapes == {"point", "line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral", "mixed"}
------------------------------------------------------------------------------
Origin(t) == \A a \in Axes : Has(t, a) => Num(Kid(t, a))
Spacing(t) == \A a \in Axes : Has(t, "d" \o a) => Num(Kid(t, "d" \o a))
Coordset(t) == /\ EnumF(t, "type", CTypes)
    /\ CASE Text(t, "type") = "uniform" -> /\ ObjF(t, "dims") /\ LDims(Kid(t, "dims"))
                                           /\ Opt(t, "origin", Origin) /\ Opt(t, "spacing", Spacing)
         [] Text(t, "type") = "rectilinear" -> Has(t, "values") /\ Box(Kid(t, "values")) /\ Kid(t, "values").ch # <<>> /\ Each(Kid(t, "values"), Num)
         [] OTHER -> Has(t, "values") /\ McOk(Kid(t, "values"))
------------------------------------------------------------------------------
ShapeMap(m) == m.k = "o" /\ m.ch # <<>> /\ \A i \in 1..Len(m.nm) : m.nm[i] \in Shapes
Mixed(t) == /\ EnumF(t, "shape", Shapes) /\ Has(t, "shape_map") /\ ShapeMap(Kid(t, "shape_map"))
            /\ IntF(t, "shapes") /\ LET m == Kid(t, "shape_map") s == Kid(t, "shapes") IN
                                    \A i \in 1..s.n : \E j \in 1..Len(m.ch) : m.ch[j].v # <<>> /\ m.ch[j].v[1] = s.v[i]
PolySub(s) == EnumF(s, "shape", {"polygonal"}) /\ IntF(s, "connectivity") /\ O2(s)
Poly(t, sub) == EnumF(t, "shape", {"polygonal", "polyhedral"}) =>
                  O2(t) /\ (Text(t, "shape") = "polyhedral" => PolySub(sub))
Elems(t) == LET e == Kid(t, "elements") sub == IF ObjF(t, "subelements") THEN Kid(t, "subelements") ELSE ET IN
    IF Has(e, "shape") THEN
         /\ EnumF(e, "shape", Shapes) /\ IntF(e, "connectivity")
         /\ IF EnumF(e, "shape", {"mixed"})
            THEN Mixed(e) /\ O2(e) /\ (Has(t, "subelements") => LET s == Kid(t, "subelements") IN Mixed(s) /\ O2(s))
            ELSE Poly(e, sub)
    ELSE Has(e, "element_types")
         \/ \A i \in 1..Len(e.ch) : LET c == e.ch[i] x == e.nm[i] IN
              EnumF(c, "shape", Shapes) /\ IntF(c, "connectivity") /\ Poly(c, IF Has(sub, x) THEN Kid(sub, x) ELSE ET)
Topology(t) == /\ EnumF(t, "type", TTypes) /\ StrF(t, "coordset") /\ (Has(t, "grid_function") => StrF(t, "grid_function"))
    /\ CASE Text(t, "type") = "structured" -> ObjF(t, "elements") /\ ObjF(Kid(t, "elements"), "dims") /\ LDims(Kid(Kid(t, "elements"), "dims"))
         [] Text(t, "type") = "unstructured" -> ObjF(t, "elements") /\ Elems(t)
         [] OTHER -> TRUE
(* nothing is said of shape maps whose numbers are not single integers       *)
OddMap(e) == Has(e, "shape_map") /\ \E i \in 1..Len(Kid(e, "shape_map").ch) : LET c == Kid(e, "shape_map").ch[i] IN ~(IsInt(c) /\ c.n = 1)
OddTopo(t) == (Has(t, "elements") /\ OddMap(Kid(t, "elements"))) \/ (Has(t, "subelements") /\ OddMap(Kid(t, "subelements")))
------------------------------------------------------------------------------
MatMap(t) == ObjF(t, "material_map") /\ Each(Kid(t, "material_map"), IsInt)
Names2(t, x) == {Kid(t, x).nm[i] : i \in 1..Len(Kid(t, x).nm)}
Matset(t) == /\ StrF(t, "topology") /\ Has(t, "volume_fractions")
    /\ LET v == Kid(t, "volume_fractions") IN
       \/ /\ Num(v) /\ IntF(t, "material_ids") /\ O2(t) /\ MatMap(t)
          /\ Has(t, "element_ids") => IsInt(Kid(t, "element_ids"))
       \/ /\ v.k = "o" /\ v.ch # <<>> /\ \A i \in 1..Len(v.ch) : IF v.ch[i].k = "o" THEN O2(v.ch[i]) ELSE Num(v.ch[i])
          /\ Has(t, "material_map") => MatMap(t) /\ Names2(t, "material_map") \subseteq Names(v)
          /\ Has(t, "element_ids") => LET e == Kid(t, "element_ids") IN e.k = "o" /\ Names(e) = Names(v) /\ Each(e, IsInt)
Specset(t) == /\ StrF(t, "matset") /\ ObjF(t, "matset_values")
    /\ LET v == Kid(t, "matset_values") IN
       /\ Each(v, McOk)
       /\ \A i, j \in 1..Len(v.ch) : (v.ch[i].ch # <<>> /\ v.ch[j].ch # <<>>) => v.ch[i].ch[1].n = v.ch[j].ch[1].n
Field(t) == /\ Has(t, "association") \/ Has(t, "basis")
            /\ Opt(t, "association", Assoc) /\ Opt(t, "basis", Str)
            /\ Has(t, "topology") \/ Has(t, "matset")
            /\ Has(t, "topology") = Has(t, "values") /\ Has(t, "matset") = Has(t, "matset_values")
            /\ Has(t, "topology") => StrF(t, "topology") /\ MlOk(Kid(t, "values"), 0, 1, FALSE)
            /\ Has(t, "matset") => StrF(t, "matset") /\ MlOk(Kid(t, "matset_values"), 0, 2, FALSE)
AdjWindow(w) == /\ \A x \in {"origin", "dims", "ratio"} : Has(w, x) /\ LDims(Kid(w, x))
                /\ Len(Kid(w, "origin").ch) = Len(Kid(w, "dims").ch) /\ Len(Kid(w, "origin").ch) = Len(Kid(w, "ratio").ch)
AdjGroup(g) == /\ IntF(g, "neighbors")
               /\ IF Has(g, "values") THEN IntF(g, "values")
                  ELSE Has(g, "windows") => /\ ObjF(g, "windows") /\ Each(Kid(g, "windows"), AdjWindow)
                                            /\ Has(g, "orientation") => IntF(g, "orientation")
Adjset(t) == /\ StrF(t, "topology") /\ AssocF(t) /\ Has(t, "groups") /\ Kid(t, "groups").k = "o" /\ Each(Kid(t, "groups"), AdjGroup)
NestWindow(w) == /\ IntF(w, "domain_id") /\ EnumF(w, "domain_type", {"parent", "child"})
                 /\ Has(w, "ratio") /\ LDims(Kid(w, "ratio"))
                 /\ \A x \in {"origin", "dims"} : Has(w, x) => LDims(Kid(w, x)) /\ Len(Kid(w, x).ch) = Len(Kid(w, "ratio").ch)
Nestset(t) == StrF(t, "topology") /\ AssocF(t) /\ ObjF(t, "windows") /\ Each(Kid(t, "windows"), NestWindow)
------------------------------------------------------------------------------
CoordSys(t) == /\ EnumF(t, "type", {"cartesian", "cylindrical", "spherical"}) /\ ObjF(t, "axes")
               /\ Names2(t, "axes") \subseteq (CASE Text(t, "type") = "cartesian" -> {"x", "y", "z"} [] Text(t, "type") = "cylindrical" -> {"r", "z"} [] OTHER -> {"r", "theta", "phi"})
CoordsetI(t) == EnumF(t, "type", CTypes) /\ StrF(t, "path") /\ ObjF(t, "coord_system") /\ CoordSys(Kid(t, "coord_system"))
TopologyI(t) == EnumF(t, "type", TTypes) /\ StrF(t, "coordset") /\ StrF(t, "path") /\ (Has(t, "grid_function") => StrF(t, "grid_function"))
MatsetI(t) == StrF(t, "topology") /\ StrF(t, "path") /\ IF Has(t, "material_map") THEN MatMap(t) ELSE ObjF(t, "materials")
SpecsetI(t) == StrF(t, "matset") /\ StrF(t, "path") /\ ObjF(t, "species")
FieldI(t) == /\ Has(t, "association") \/ Has(t, "basis")
             /\ Opt(t, "association", Assoc) /\ Opt(t, "basis", Str)
             /\ Has(t, "topology") \/ Has(t, "matset")
             /\ Opt(t, "topology", Str) /\ Opt(t, "matset", Str)
             /\ IntF(t, "number_of_components") /\ StrF(t, "path")
AdjsetI(t) == StrF(t, "topology") /\ AssocF(t) /\ StrF(t, "path")
NestsetI(t) == AdjsetI(t)
------------------------------------------------------------------------------
(* references: a named part must exist and be valid itself                   *)
Part(m, sec, x) == Kid(Kid(m, sec), x)
There(m, sec, t, x) == StrF(t, x) /\ Has(m, sec) /\ Has(Kid(m, sec), Text(t, x))
Ref(m, sec, t, x) == Part(m, sec, Text(t, x))
VC(m, i, t) == IF i THEN CoordsetI(t) ELSE Coordset(t)
VT(m, i, t) == (IF i THEN TopologyI(t) ELSE Topology(t)) /\ There(m, "coordsets", t, "coordset") /\ VC(m, i, Ref(m, "coordsets", t, "coordset"))
OnTopo(m, i, t) == There(m, "topologies", t, "topology") /\ VT(m, i, Ref(m, "topologies", t, "topology"))
VM(m, i, t) == (IF i THEN MatsetI(t) ELSE Matset(t)) /\ OnTopo(m, i, t)
OnMat(m, i, t) == There(m, "matsets", t, "matset") /\ VM(m, i, Ref(m, "matsets", t, "matset"))
VS(m, i, t) == (IF i THEN SpecsetI(t) ELSE Specset(t)) /\ OnMat(m, i, t)
VF(m, i, t) == /\ IF i THEN FieldI(t) ELSE Field(t)
               /\ Has(t, "topology") => OnTopo(m, i, t)
               /\ Has(t, "matset") => OnMat(m, i, t)
VA(m, i, t) == (IF i THEN AdjsetI(t) ELSE Adjset(t)) /\ OnTopo(m, i, t)
VN(m, i, t) == (IF i THEN NestsetI(t) ELSE Nestset(t)) /\ OnTopo(m, i, t)
GridFn(m, t) == Has(t, "grid_function") => There(m, "fields", t, "grid_function") /\ VF(m, FALSE, Ref(m, "fields", t, "grid_function"))
V(m, i, sec, t) == CASE sec = "coordsets" -> VC(m, i, t) [] sec = "topologies" -> VT(m, i, t) /\ (~i => GridFn(m, t))
                     [] sec = "matsets" -> VM(m, i, t) [] sec = "specsets" -> VS(m, i, t) [] sec = "fields" -> VF(m, i, t)
                     [] sec = "adjsets" -> VA(m, i, t) [] sec = "nestsets" -> VN(m, i, t)
Secs == {"coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets"}
Domain(m, i) == /\ ObjF(m, "coordsets") /\ ObjF(m, "topologies")
                /\ \A s \in Secs : Has(m, s) => ObjF(m, s) /\ Each(Kid(m, s), LAMBDA t : V(m, i, s, t))
MeshOk(m) == IF Has(m, "coordsets") THEN Domain(m, FALSE) ELSE m.k # "d" /\ Each(m, LAMBDA d : Domain(d, FALSE))
OddDom(m) == Has(m, "topologies") /\ \E i \in 1..Len(Kid(m, "topologies").ch) : OddTopo(Kid(m, "topologies").ch[i])
Odd(p, t) == CASE p = "mesh" -> OddDom(t) \/ \E i \in 1..Len(t.ch) : OddDom(t.ch[i]) [] p = "topology" -> OddTopo(t) [] OTHER -> FALSE
Ok(p, t) == CASE p = "mesh" -> MeshOk(t) [] p = "index" -> Domain(t, TRUE)
    [] p = "coordset" -> Coordset(t) [] p = "topology" -> Topology(t) [] p = "matset" -> Matset(t) [] p = "specset" -> Specset(t)
    [] p = "field" -> Field(t) [] p = "adjset" -> Adjset(t) [] p = "nestset" -> Nestset(t)
    [] p = "coordset/index" -> CoordsetI(t) [] p = "topology/index" -> TopologyI(t) [] p = "matset/index" -> MatsetI(t)
    [] p = "specset/index" -> SpecsetI(t) [] p = "field/index" -> FieldI(t) [] p = "adjset/index" -> AdjsetI(t) [] p = "nestset/index" -> NestsetI(t)
    [] p = "coordset/type" -> Enum(t, CTypes) [] p = "topology/type" -> Enum(t, TTypes) [] p = "topology/shape" -> Enum(t, Shapes)
    [] p = "association" -> Assoc(t) [] p = "dims" -> LDims(t) [] p = "coord_system" -> CoordSys(t) [] p = "nestset/type" -> Enum(t, {"parent", "child"})
    [] p = "mcarray" -> McOk(t) [] p = "o2mrelation" -> O2(t) [] OTHER -> FALSE
------------------------------------------------------------------------------
(* the index of a mesh: canonical trees are sets of named parts              *)
RECURSIVE Canon(_)
Canon(t) == [k |-> t.k, t |-> t.t, v |-> t.v, ch |-> {<<t.nm[i], Canon(t.ch[i])>> : i \in 1..Len(t.ch)}]
L(ty, s) == [k |-> "d", t |-> ty, v |-> <<s>>, ch |-> {}]
S(s) == L("char8_str", s)
O(ps) == [k |-> "o", t |-> "", v |-> <<>>, ch |-> ps]
E0 == [k |-> "e", t |-> "", v |-> <<>>, ch |-> {}]
If(c, p) == IF c THEN {p} ELSE {}
Undash(x) == CASE x = "dx" -> "x" [] x = "dy" -> "y" [] x = "dz" -> "z" [] x = "dr" -> "r" [] x = "dtheta" -> "theta" [] x = "dphi" -> "phi" [] OTHER -> x
AxesOf(c) == CASE Text(c, "type") # "uniform" -> Names2(c, "values")
               [] Has(c, "origin") -> Names2(c, "origin")
               [] Has(c, "spacing") -> {Undash(x) : x \in Names2(c, "spacing")}
               [] OTHER -> {<<"x", "y", "z">>[i] : i \in 1..Len(Kid(c, "dims").ch)}
SysOf(c) == LET a == AxesOf(c) IN IF a \cap {"theta", "phi"} # {} THEN "spherical" ELSE IF "r" \in a THEN "cylindrical" ELSE "cartesian"
Copy(t, x) == If(Has(t, x), <<x, Canon(Kid(t, x))>>)
Comps(f) == IF Has(f, "values") THEN (IF Kid(f, "values").k = "o" THEN Len(Kid(f, "values").ch) ELSE 1)
            ELSE LET v == Kid(f, "matset_values") IN IF v.ch # <<>> /\ v.ch[1].k = "o" THEN Len(v.ch[1].ch) ELSE 1
Entry(sec, x, t, pre) == {<<"path", S(pre \o sec \o "/" \o x)>>} \cup
    (CASE sec = "coordsets" -> {<<"type", Canon(Kid(t, "type"))>>, <<"coord_system", O({<<"type", S(SysOf(t))>>, <<"axes", O({<<a, E0>> : a \in AxesOf(t)})>>})>>}
       [] sec = "topologies" -> Copy(t, "type") \cup Copy(t, "coordset") \cup Copy(t, "grid_function")
       [] sec = "matsets" -> Copy(t, "topology") \cup
            {<<"material_map", IF Has(t, "material_map") THEN Canon(Kid(t, "material_map"))
                               ELSE LET v == Kid(t, "volume_fractions") IN O({<<v.nm[i], L("int64", ToString(i - 1))>> : i \in 1..Len(v.nm)})>>}
       [] sec = "specsets" -> Copy(t, "matset") \cup
            {<<"species", LET v == Kid(t, "matset_values") IN O({<<v.nm[i], O({<<v.ch[i].nm[j], E0>> : j \in 1..Len(v.ch[i].nm)})>> : i \in 1..Len(v.nm)})>>}
       [] sec = "fields" -> {<<"number_of_components", L("int64", ToString(Comps(t)))>>} \cup Copy(t, "topology") \cup Copy(t, "matset") \cup Copy(t, "volume_dependent")
            \cup (IF Has(t, "association") THEN Copy(t, "association") ELSE Copy(t, "basis"))
       [] OTHER -> Copy(t, "association") \cup Copy(t, "topology"))
(* later domains add to and override earlier ones                            *)
RECURSIVE Over(_, _)
Over(a, b) == IF b.k # "o" \/ a.k # "o" THEN b
              ELSE LET nb == {p[1] : p \in b.ch} na == {p[1] : p \in a.ch} IN
                   O({p \in a.ch : p[1] \notin nb} \cup {p \in b.ch : p[1] \notin na}
                     \cup {<<x, Over((CHOOSE p \in a.ch : p[1] = x)[2], (CHOOSE p \in b.ch : p[1] = x)[2])>> : x \in na \cap nb})
DomIndex(m, pre) == O({<<sec, O({<<Kid(m, sec).nm[i], O(Entry(sec, Kid(m, sec).nm[i], Kid(m, sec).ch[i], pre))>> : i \in 1..Len(Kid(m, sec).nm)})>> : sec \in {s \in Secs : Has(m, s)}}
                      \cup If(Has(m, "state"), <<"state", O(Copy(Kid(m, "state"), "cycle") \cup Copy(Kid(m, "state"), "time") \cup {<<"path", S(pre \o "state")>>})>>))
Doms(m) == IF Has(m, "coordsets") THEN <<m>> ELSE m.ch
Index(m, pre, n) == LET d == Doms(m) f(a, i) == Over(a, DomIndex(d[i], pre)) IN
    Over(Fold1(f, O({}), Len(d)), O({<<"state", O({<<"number_of_domains", L("int64", ToString(n))>>})>>}))
------------------------------------------------------------------------------
ValidVerify(e) ==
    /\ ~e.out.raised /\ e.out.kept
    /\ Odd(e.p, e.tree) \/ e.out.ver = Ok(e.p, e.tree)
    /\ e.p \notin {"other"} => e.out.valid = e.out.ver
    /\ (e.p = "mesh" /\ Has(e.tree, "coordsets") /\ ~OddDom(e.tree)) =>
         \A i \in 1..Len(e.out.parts) : LET q == e.out.parts[i] IN q.ok = V(e.tree, FALSE, q.sec, Part(e.tree, q.sec, q.x))
    /\ e.out.doms.asked => /\ e.out.doms.multi = ~Has(e.tree, "coordsets") /\ e.out.doms.n = Len(Doms(e.tree))
                           /\ e.out.doms.list /\ e.out.doms.clist /\ e.out.doms.to /\ e.out.doms.ext
    /\ e.idx => /\ e.out.ver
                /\ e.tree.ch # <<>> => /\ ~e.out.index.raised /\ e.out.index.ver = Domain(e.out.index.t, TRUE)
                                       /\ Len(Doms(e.tree)) = 1 => e.out.index.ver
                                       /\ Canon(e.out.index.t) = Index(e.tree, e.pre, e.nd)
Valid(e) == ValidVerify(e)
RECURSIVE Flat(_, _)
Flat(t, p) == {<<p, t.k, t.t, t.v>>} \cup UNION {Flat(c[2], p \o "/" \o c[1]) : c \in t.ch}
Show(e) == <<e.p, e.muts, "raised", e.out.raised, "ver", e.out.ver, "kept", e.out.kept, "valid", e.out.valid, "expect", Ok(e.p, e.tree),
             SelectSeq(e.out.parts, LAMBDA q : q.ok # V(e.tree, FALSE, q.sec, Part(e.tree, q.sec, q.x))), e.out.doms,
             IF e.idx /\ ~e.out.index.raised THEN LET a == Flat(Canon(e.out.index.t), "") b == Flat(Index(e.tree, e.pre, e.nd), "") IN <<a \ b, b \ a, e.out.index.ver>> ELSE <<e.idx>>>>
=============================================================================
