----------------------------- MODULE NodeExplore -----------------------------
(* Exhaustive exploration of NodeModel up to a bound.  Every transition TLC  *)
(* takes is written to OUT as the history that leads to it and the result    *)
(* and observation the model expects; the driver replays each of them in     *)
(* the library.  PROFILE selects the alphabet of calls.                      *)
EXTENDS NodeModel, Json, IOUtils, CSV
VARIABLES st, h
Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
MaxNodes == atoi(IOEnv.MAXNODES)
OutFile == IOEnv.OUT

\* the callers' arrays as the driver initialises them
X0(n) == [q \in 1..n |-> q]
Xs0 == <<X0(32), X0(16), X0(32), X0(32),
         [q \in 1..16 |-> IF q \in {4, 16} THEN 0 ELSE q]>>

RECURSIVE AddrsIn(_, _)
AddrsIn(nd, a) == {a} \cup UNION {AddrsIn(nd.ch[i], Append(a, i)) : i \in 1..Len(nd.ch)}
Addrs(r) == AddrsIn(st.r[r], <<r>>)
RECURSIVE Count(_)
Count(nd) == 1 + SumSeq([i \in 1..Len(nd.ch) |-> Count(nd.ch[i])])
RECURSIVE AnyDead(_)
AnyDead(nd) == \/ nd.k = "d" /\ nd.n > 0 /\ ~st.m[nd.b].lv
               \/ \E i \in 1..Len(nd.ch) : AnyDead(nd.ch[i])
RECURSIVE Grouped(_)
Grouped(nd) == \/ nd.k = "d" /\ nd.n > 0 /\ nd.b > NX /\ nd.ob # nd.b
               \/ \E i \in 1..Len(nd.ch) : Grouped(nd.ch[i])
Apart(a, b) == ~IsPfx(a, b) /\ ~IsPfx(b, a)

I8(x) == <<<<x>>>>
I16 == <<<<1, 2>>, <<3, 4>>>>
Str == <<<<65>>, <<0>>>>
LeafSc(t, n, o, s) == [k |-> "d", nm |-> <<>>, ch |-> <<>>, t |-> t, n |-> n, o |-> o, s |-> s]
ObjSc == [k |-> "o", nm |-> <<"a", "b">>, t |-> "", n |-> 0, o |-> 0, s |-> 0,
          ch |-> <<LeafSc("int16", 2, 0, 4), LeafSc("uint8", 1, 2, 1)>>]

TreeOps ==
    LET A == Addrs(1) B == Addrs(2) IN
       {[op |-> "fetch", a |-> a, pt |-> p] : a \in A,
          p \in {<<"a">>, <<"a", "/", "b">>, <<"..", "/", "b">>, <<"/", "a", "/">>}}
    \cup {[op |-> "fetch", a |-> <<2>>, pt |-> <<"a">>]}
    \cup {[op |-> "addc", a |-> a, nm |-> x] : a \in A, x \in {"b", "p/q"}}
    \cup {[op |-> "app", a |-> a] : a \in A}
    \cup {[op |-> "rmp", a |-> <<1>>, pt |-> p] : p \in {<<"a">>, <<"a", "/", "b">>}}
    \cup {[op |-> "rmc", a |-> a, nm |-> x] : a \in A, x \in {"a", "p/q"}}
    \cup {[op |-> "rmi", a |-> a, i |-> i] : a \in A, i \in {0, 1}}
    \cup {[op |-> "ren", a |-> a, nm |-> "a", nm2 |-> x] : a \in A, x \in {"b", "p/q"}}
    \cup {[op |-> "reset", a |-> a] : a \in A}
    \cup {[op |-> "setv", a |-> a, t |-> "int8", v |-> I8(7)] : a \in A}
    \cup {[op |-> "fe", a |-> a, pt |-> p] : a \in A,
            p \in {<<"a">>, <<"a", "/", "..", "/", "b">>, <<>>, <<"/">>}}
    \cup {[op |-> "qpath", a |-> <<1>>, pt |-> p] : p \in {<<"a", "/", "b">>, <<"p", "/", "q">>}}
    \cup {[op |-> "qname", a |-> a] : a \in A}
    \cup {[op |-> x, a |-> p[1], a2 |-> p[2]] : x \in {"move", "swap"},
            p \in {q \in (A \cup B) \X (A \cup B) : Apart(q[1], q[2])}}
    \cup {[op |-> "setn", a |-> a, a2 |-> b] : a \in A, b \in B}

OwnOps ==
    LET A == Addrs(1) B == Addrs(2) P == {q \in (A \cup B) \X (A \cup B) : Apart(q[1], q[2])} IN
       {[op |-> "fetch", a |-> <<1>>, pt |-> <<"a">>], [op |-> "fetch", a |-> <<1>>, pt |-> <<"b">>],
        [op |-> "app", a |-> <<2>>]}
    \cup {[op |-> "setv", a |-> a, t |-> "int16", v |-> v] : a \in A, v \in {I16, <<<<9, 9>>>>}}
    \cup {[op |-> "setv", a |-> a, t |-> "char8_str", v |-> Str] : a \in A}
    \cup {[op |-> "initdt", a |-> a, t |-> "int16", n |-> 2, o |-> 1, s |-> 4] : a \in A \cup B}
    \cup {[op |-> "setdt", a |-> a, t |-> "uint8", n |-> 2, o |-> 1, s |-> 2,
            by |-> <<5, 6, 7, 8>>] : a \in A}
    \cup {[op |-> "setx", a |-> a, t |-> "int16", n |-> 3, o |-> 0, s |-> 2, x |-> 2] : a \in A \cup B}
    \cup {[op |-> "setsch", a |-> a, sc |-> ObjSc] : a \in A}
    \cup {[op |-> "setschx", a |-> <<2>>, sc |-> ObjSc, x |-> 2]}
    \cup {[op |-> "listof", a |-> a, sc |-> LeafSc("int16", 2, 0, 2), n |-> 2, x |-> x] : a \in A, x \in {0, 2}}
    \cup {[op |-> "setn", a |-> p[1], a2 |-> p[2]] : p \in P}
    \cup {[op |-> "compact", a |-> p[1], a2 |-> p[2]] : p \in P}
    \cup {[op |-> "setxn", a |-> <<3>>, a2 |-> a] : a \in A \cup B}
    \cup {[op |-> "updx", a |-> <<3>>, a2 |-> a] : a \in A}
    \cup {[op |-> "wrx", a |-> <<1>>, x |-> 2, i |-> 2, by |-> <<44, 45>>]}
    \cup {[op |-> "wre", a |-> a, i |-> 0, by |-> [j \in 1..DefaultBytes(Get(st, a).t) |-> 66]] :
            a \in {x \in A \cup Addrs(3) : Get(st, x).k = "d" /\ Get(st, x).n > 0 /\ Get(st, x).t # "char8_str"}}
    \cup {[op |-> "endian", a |-> <<1>>, en |-> "big"]}
    \cup {[op |-> "reset", a |-> a] : a \in A \cup {<<2>>, <<3>>}}
    \cup {[op |-> "rmi", a |-> a, i |-> 0] : a \in A}
    \cup (IF Grouped(st.r[1]) \/ Grouped(st.r[2]) THEN {}
          ELSE {[op |-> x, a |-> p[1], a2 |-> p[2]] : x \in {"move", "swap"}, p \in P})

UpdOps ==
    LET A == Addrs(1) B == Addrs(2)
        leafs == {[op |-> "setv", t |-> "int16", v |-> I16], [op |-> "setv", t |-> "int16", v |-> <<<<9, 9>>>>],
                  [op |-> "setv", t |-> "uint8", v |-> I8(3)]}
    IN
       {[op |-> "fetch", a |-> <<r>>, pt |-> p] : r \in {1, 2}, p \in {<<"a">>, <<"b">>}}
    \cup {[op |-> "app", a |-> a] : a \in A \cup B}
    \cup {[op |-> "setv", a |-> a, t |-> f.t, v |-> f.v] : a \in A \cup B, f \in leafs}
    \cup {[op |-> "initdt", a |-> a, t |-> "int16", n |-> 2, o |-> 1, s |-> 4] : a \in A}
    \cup {[op |-> "setx", a |-> a, t |-> "int16", n |-> 3, o |-> 0, s |-> 2, x |-> 2] : a \in A \cup B}
    \cup {[op |-> "setx", a |-> a, t |-> "int16", n |-> 2, o |-> 2, s |-> 4, x |-> 2] : a \in B}
    \cup {[op |-> x, a |-> <<1>>, a2 |-> <<2>>] : x \in {"upd", "updc"}}
    \cup {[op |-> x, a |-> <<2>>, a2 |-> <<1>>] : x \in {"upd", "updc"}}
    \cup {[op |-> "updx", a |-> <<3>>, a2 |-> <<r>>] : r \in {1, 2}}

Alphabet == CASE Profile = "tree" -> TreeOps
              [] Profile = "own" -> OwnOps
              [] Profile = "upd" -> UpdOps

ToExport(ops, r) == [h |-> ops, ok |-> r.ok, res |-> r.res, post |-> Observe(r.st),
                     xs |-> Externals(r.st), lv |-> LiveCount(r.st), ab |-> AllocBytes(r.st)]

Init == st = Init0(Xs0) /\ h = <<>>
Do(op) ==
    LET r == Step(st, op) hh == Append(h, op) IN
    /\ st' = r.st
    /\ h' = hh
    /\ CSVWrite("%1$s", <<ToJson(ToExport(hh, r))>>, OutFile)
Next ==
    /\ Len(h) < Depth
    /\ Count(st.r[1]) + Count(st.r[2]) <= MaxNodes
    /\ IF \E i \in 1..3 : AnyDead(st.r[i])
       THEN \E i \in 1..3 : AnyDead(st.r[i]) /\ Do([op |-> "reset", a |-> <<i>>])
       ELSE \E op \in Alphabet : Do(op)
\* states that differ only in the history or in freed memory are the same
RECURSIVE OwnShape(_)
OwnShape(nd) == <<nd.ob # 0, [i \in 1..Len(nd.ch) |-> OwnShape(nd.ch[i])]>>
View == <<Observe(st), Externals(st), LiveCount(st), [i \in 1..3 |-> OwnShape(st.r[i])]>>
Inv == TreeOK(st) /\ OwnOK(st) /\ MemOK(st)
\* only the view tree can ever be left dangling by what happens elsewhere
NoDangling == ~AnyDead(st.r[1]) /\ ~AnyDead(st.r[2])
Spec == Init /\ [][Next]_<<st, h>>
=============================================================================
