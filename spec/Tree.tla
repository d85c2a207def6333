-------------------------------- MODULE Tree --------------------------------
(* Value trees as the drivers record them: a kind (o)bject, (l)ist, (e)mpty, *)
(* (d)ata, child names and children, element type, count, element bytes.     *)
EXTENDS Naturals, Sequences, SequencesExt, TLC
MinOf(a, b) == IF a < b THEN a ELSE b
ET == [k |-> "e", nm |-> <<>>, ch |-> <<>>, t |-> "", n |-> 0, v |-> <<>>]
OT == [ET EXCEPT !.k = "o"]
LT == [ET EXCEPT !.k = "l"]
Has(t, x) == t.k = "o" /\ \E i \in 1..Len(t.nm) : t.nm[i] = x
Idx(t, x) == CHOOSE i \in 1..Len(t.nm) : t.nm[i] = x
Kid(t, x) == t.ch[Idx(t, x)]
PutKid(t, x, c) == IF Has(t, x) THEN [t EXCEPT !.ch[Idx(t, x)] = c]
                   ELSE [t EXCEPT !.nm = Append(@, x), !.ch = Append(@, c)]
AsObj(t) == IF t.k = "o" THEN t ELSE OT
RECURSIVE HasPath(_, _), Get(_, _), Put(_, _, _), Del(_, _)
HasPath(t, p) == IF p = <<>> THEN TRUE ELSE Has(t, p[1]) /\ HasPath(Kid(t, p[1]), Tail(p))
Get(t, p) == IF p = <<>> THEN t ELSE Get(Kid(t, p[1]), Tail(p))
GetOr(t, p) == IF HasPath(t, p) THEN Get(t, p) ELSE ET
Put(t, p, c) == IF p = <<>> THEN c
                ELSE LET o == AsObj(t) IN
                     PutKid(o, p[1], Put(IF Has(o, p[1]) THEN Kid(o, p[1]) ELSE ET, Tail(p), c))
Del(t, p) == IF Len(p) = 1
             THEN LET i == Idx(t, p[1]) IN
                  [t EXCEPT !.nm = RemoveAt(@, i), !.ch = RemoveAt(@, i)]
             ELSE PutKid(t, p[1], Del(Kid(t, p[1]), Tail(p)))
Fold1(f(_, _), b, n) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN b ELSE f(G(i - 1), i) IN G(n)
(* Node::update by value                                                     *)
RECURSIVE Update(_, _)
Update(d, s) ==
  CASE s.k = "e" \/ (s.k \in {"o", "l"} /\ s.ch = <<>>) -> d  \* nothing to bring in
    [] s.k = "o" -> LET f(a, i) == PutKid(a, s.nm[i], Update(IF Has(a, s.nm[i]) THEN Kid(a, s.nm[i]) ELSE ET, s.ch[i]))
                    IN Fold1(f, AsObj(d), Len(s.ch))
    [] s.k = "l" -> LET b == IF d.k = "l" THEN d ELSE LT
                        f(a, i) == IF i <= Len(a.ch) THEN [a EXCEPT !.ch[i] = Update(@, s.ch[i])]
                                   ELSE [a EXCEPT !.ch = Append(@, Update(ET, s.ch[i]))]
                    IN Fold1(f, b, Len(s.ch))
    [] s.k = "d" -> IF d.k = "d" /\ d.t = s.t /\ d.n >= s.n
                    THEN [d EXCEPT !.v = s.v \o SubSeq(d.v, s.n + 1, d.n)] ELSE s
SplitPath(s) == s   \* paths are recorded as sequences of names
=============================================================================
