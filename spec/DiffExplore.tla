----------------------------- MODULE DiffExplore -----------------------------
(* All pairs of trees from a small universe, with the expected answers.      *)
EXTENDS Diff, Json, IOUtils, CSV
VARIABLES e, done
Lf(t, v, f, o, s, x) == [k |-> "d", nm |-> <<>>, ch |-> <<>>, t |-> t, v |-> v, f |-> f,
                         o |-> o, s |-> s, x |-> x, en |-> "default"]
Kd(k, nm, ch) == [k |-> k, nm |-> nm, ch |-> ch, t |-> "", v |-> <<>>, f |-> <<>>,
                  o |-> 0, s |-> 0, x |-> "", en |-> ""]
E0 == Kd("e", <<>>, <<>>)
Leaves == {E0,
    Lf("int8", <<"01">>, <<>>, 0, 1, "own"), Lf("int8", <<"01", "ff">>, <<>>, 1, 2, "ext"),
    Lf("uint8", <<"ff">>, <<>>, 0, 1, "own"), Lf("int16", <<"ffff">>, <<>>, 0, 2, "own"),
    Lf("int16", <<>>, <<>>, 0, 2, "own"),
    Lf("float64", <<"000000000000f03f">>, <<16>>, 0, 8, "own"),
    Lf("float64", <<"000000000000f13f">>, <<17>>, 8, 16, "ext"),
    Lf("char8_str", <<"61", "00">>, <<>>, 0, 1, "own"), Lf("char8_str", <<"61", "62", "00">>, <<>>, 1, 2, "ext"),
    Lf("char8_str", <<"00">>, <<>>, 0, 1, "own")}
L3 == {Lf("int8", <<"01">>, <<>>, 0, 1, "own"), Lf("int8", <<"02">>, <<>>, 0, 1, "own"), E0}
Trees == Leaves
    \cup {Kd("o", <<>>, <<>>), Kd("l", <<>>, <<>>)}
    \cup {Kd("o", <<"a">>, <<x>>) : x \in L3} \cup {Kd("l", <<>>, <<x>>) : x \in L3}
    \cup {Kd("o", <<"a", "p/q">>, <<x, y>>) : x \in L3, y \in L3}
    \cup {Kd("o", <<"p/q", "a">>, <<x, y>>) : x \in L3, y \in L3}
    \cup {Kd("l", <<>>, <<x, y>>) : x \in L3, y \in L3}
    \cup {Kd("o", <<"a">>, <<Kd("l", <<>>, <<x>>)>>) : x \in L3}
Single(t) == t.k # "d" \/ Len(t.v) = 1 \/ t.t = "char8_str"
Inputs == {[op |-> "diff", a |-> x, b |-> y, eps |-> p[1], relax |-> p[2]] :
             x \in Trees, y \in Trees, p \in {<<0, FALSE>>, <<2, FALSE>>}}
          \cup {[op |-> "diff", a |-> x, b |-> y, eps |-> 0, relax |-> TRUE] :
             x \in {z \in Leaves : Single(z)}, y \in {z \in Leaves : Single(z)}}
Init == e \in Inputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED e
        /\ CSVWrite("%1$s", <<ToJson([h |-> <<e>>, out |-> Expect(e)])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_<<e, done>>
Inv == Laws(e)
=============================================================================
