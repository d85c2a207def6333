-------------------------------- MODULE Csv ---------------------------------
(* Tables in CSV files.  A path holds nothing, one table ("file") or a        *)
(* directory of named tables ("dir").  A column is [n, c]: its name and its   *)
(* components, each [n, v].  A value is [f, d]: the number rounded to single  *)
(* and to double precision; a load gives one of them.  An event is a history  *)
(* of saves, texts written by others and loads.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
None == [k |-> "none", tbs |-> {}]
\* a column of one component is a plain column
Comp(p) == [n |-> p.n, v |-> [i \in 1..Len(p.v) |-> [f |-> p.v[i].f, d |-> p.v[i].d]]]
Col(c) == [n |-> c.n, c |-> IF Len(c.c) = 1 THEN <<[Comp(c.c[1]) EXCEPT !.n = ""]>> ELSE [q \in 1..Len(c.c) |-> Comp(c.c[q])]]
Table(t) == [bad |-> FALSE, cols |-> [i \in 1..Len(t.cols) |-> Col(t.cols[i])]]
\* a text of others: a row with too many cells or a cell without a number cannot be read
Width(s) == IF s.hdr # <<>> THEN Len(s.hdr) ELSE Len(s.rows[1])
Text(s) == LET w == Width(s) bad == \E r \in 1..Len(s.rows) : Len(s.rows[r]) > w \/ \E i \in 1..Len(s.rows[r]) : ~s.rows[r][i].ok IN
    [bad |-> bad, cols |-> IF bad THEN <<>> ELSE
      [i \in 1..w |-> [n |-> IF s.hdr # <<>> THEN s.hdr[i] ELSE "[" \o ToString(i - 1) \o "]",
                       c |-> <<[n |-> "", v |-> [r \in 1..Len(s.rows) |-> [f |-> s.rows[r][i].f, d |-> s.rows[r][i].d]]]>>]]]
BadSave(s) == \E i \in 1..Len(s.tbs) : ~s.tbs[i].t.ok
Fits(p, s) == ~BadSave(s) /\ (IF s.form = "single" THEN p.k # "dir" ELSE p.k # "file")
Saved(p, s) == IF s.form = "single" THEN [k |-> "file", tbs |-> {[n |-> "", i |-> 0, t |-> Table(s.tbs[1].t)]}]
    ELSE LET new == {[n |-> s.tbs[i].n, i |-> IF s.form = "list" THEN i - 1 ELSE -1, t |-> Table(s.tbs[i].t)] : i \in 1..Len(s.tbs)} IN
         [k |-> "dir", tbs |-> new \cup {x \in p.tbs : \A y \in new : y.n # x.n}]
Step(fs, s) == CASE s.do = "text" -> [fs EXCEPT ![s.f] = [k |-> "file", tbs |-> {[n |-> "", i |-> 0, t |-> Text(s)]}]]
                 [] s.do = "save" -> IF Fits(fs[s.f], s) THEN [fs EXCEPT ![s.f] = Saved(fs[s.f], s)] ELSE fs
                 [] OTHER -> fs
RECURSIVE At(_, _)
At(e, i) == IF i = 0 THEN [f \in 0..1 |-> None] ELSE Step(At(e, i - 1), e.steps[i])
\* what a load gives
Pick(x, f64) == IF f64 THEN x.d ELSE x.f
Seen(t, f64) == [i \in 1..Len(t.cols) |-> [n |-> t.cols[i].n, c |-> [q \in 1..Len(t.cols[i].c) |-> [n |-> t.cols[i].c[q].n, v |-> [r \in 1..Len(t.cols[i].c[q].v) |-> Pick(t.cols[i].c[q].v[r], f64)]]]]]
Same(o, t, f64) == o.shape /\ o.ty = <<IF f64 THEN "float64" ELSE "float32">> /\ o.cols = Seen(t, f64)
LoadOk(p, s, o) ==
    IF p.k = "none" \/ \E x \in p.tbs : x.t.bad THEN ~o.ok
    ELSE /\ o.ok /\ Len(o.tbs) = Cardinality(p.tbs)
         /\ IF p.k = "file" THEN o.form = "single" /\ Same(o.tbs[1].t, (CHOOSE x \in p.tbs : TRUE).t, s.f64)
            ELSE IF \A x \in p.tbs : x.i >= 0
                 THEN o.form = "list" /\ \A x \in p.tbs : x.i + 1 \in 1..Len(o.tbs) /\ Same(o.tbs[x.i + 1].t, x.t, s.f64)
                 ELSE o.form = "object" /\ \A x \in p.tbs : \E j \in 1..Len(o.tbs) : o.tbs[j].n = x.n /\ Same(o.tbs[j].t, x.t, s.f64)
StepOk(e, i) == LET s == e.steps[i] o == e.out[i] p == At(e, i - 1)[s.f] IN
    /\ o.same
    /\ CASE s.do = "text" -> o.ok [] s.do = "save" -> o.ok = Fits(p, s) [] OTHER -> LoadOk(p, s, o)
Valid(e) == Len(e.out) = Len(e.steps) /\ \A i \in 1..Len(e.steps) : StepOk(e, i)
Show(e) == LET B == {i \in 1..Len(e.steps) : ~StepOk(e, i)} IF0 == IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j IN
    <<"step", IF0, IF IF0 = 0 THEN <<>> ELSE <<e.steps[IF0], At(e, IF0 - 1)[e.steps[IF0].f]>>>>
=============================================================================
