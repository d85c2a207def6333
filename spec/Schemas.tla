------------------------------ MODULE Schemas ------------------------------
(* A schema on its own: a tree of named or listed children whose leaves are  *)
(* data type descriptions.  One event is a whole history of calls on one     *)
(* schema; after each call the driver reports its answer and the tree.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Leaf(d) == [k |-> "d", nm |-> <<>>, ch |-> <<>>, d |-> d]
NoD == [t |-> "", n |-> 0, o |-> 0, s |-> 0, en |-> ""]
E == [k |-> "e", nm |-> <<>>, ch |-> <<>>, d |-> NoD]
Obj == [E EXCEPT !.k = "o"]
Lst == [E EXCEPT !.k = "l"]
Dot == ".."
RECURSIVE Get(_, _), Put(_, _, _)
Get(t, ix) == IF ix = <<>> THEN t ELSE Get(t.ch[Head(ix)], Tail(ix))
Put(t, ix, v) == IF ix = <<>> THEN v ELSE [t EXCEPT !.ch[Head(ix)] = Put(@, Tail(ix), v)]
Pos(x, n) == IF x.k = "o" /\ \E i \in 1..Len(x.nm) : x.nm[i] = n THEN CHOOSE i \in 1..Len(x.nm) : x.nm[i] = n ELSE 0
Front(q) == SubSeq(q, 1, Len(q) - 1)
Cut(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
\* fetch: walk the names from the schema at ix, making objects and children on the way
RECURSIVE Fetch(_, _, _)
Fetch(t, ix, p) ==
  IF p = <<>> THEN [t |-> t, ix |-> ix]
  ELSE LET x == Get(t, ix)
           y == IF x.k = "o" THEN x ELSE Obj IN
       IF Head(p) = Dot /\ ix # <<>> THEN Fetch(Put(t, ix, y), Front(ix), Tail(p))
       ELSE LET i == Pos(y, Head(p))
                z == IF i # 0 THEN y ELSE [y EXCEPT !.nm = Append(@, Head(p)), !.ch = Append(@, E)] IN
            Fetch(Put(t, ix, z), Append(ix, IF i # 0 THEN i ELSE Len(z.ch)), Tail(p))
\* where an existing path leads, or <<0>>
RECURSIVE Find(_, _, _)
Find(t, ix, p) ==
  IF p = <<>> THEN ix
  ELSE LET x == Get(t, ix) IN
       IF x.k # "o" THEN <<0>>
       ELSE IF Head(p) = Dot /\ ix # <<>> THEN Find(t, Front(ix), Tail(p))
       ELSE LET i == Pos(x, Head(p)) IN IF i = 0 THEN <<0>> ELSE Find(t, Append(ix, i), Tail(p))
Bad(ix) == ix = <<0>>
RECURSIVE Down(_, _)          \* existing path without "..", as has_path and remove walk it
Down(x, p) == IF p = <<>> THEN TRUE ELSE LET i == Pos(x, Head(p)) IN i # 0 /\ Down(x.ch[i], Tail(p))
RECURSIVE Compat(_, _), Equal(_, _)
Compat(a, b) == a.k = b.k /\ CASE a.k = "o" -> \A i \in 1..Len(b.nm) : Pos(a, b.nm[i]) # 0 => Compat(a.ch[Pos(a, b.nm[i])], b.ch[i])
                             [] a.k = "l" -> Len(a.ch) >= Len(b.ch) /\ \A i \in 1..Len(b.ch) : Compat(a.ch[i], b.ch[i])
                             [] a.k = "d" -> a.d.t = b.d.t /\ a.d.n >= b.d.n [] OTHER -> TRUE
Equal(a, b) == a.k = b.k /\ CASE a.k = "o" -> Len(a.nm) = Len(b.nm) /\ \A i \in 1..Len(b.nm) : Pos(a, b.nm[i]) # 0 /\ Equal(a.ch[Pos(a, b.nm[i])], b.ch[i])
                            [] a.k = "l" -> Len(a.ch) = Len(b.ch) /\ \A i \in 1..Len(b.ch) : Equal(a.ch[i], b.ch[i])
                            [] a.k = "d" -> a.d = b.d [] OTHER -> TRUE
Slash(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = "/"
Name(t, ix) == IF ix = <<>> THEN "" ELSE LET p == Get(t, Front(ix)) i == ix[Len(ix)] IN
               IF p.k = "l" THEN "[" \o ToString(i - 1) \o "]" ELSE IF Slash(p.nm[i]) THEN "{" \o p.nm[i] \o "}" ELSE p.nm[i]
RECURSIVE Path(_, _)
Path(t, ix) == IF Len(ix) <= 1 THEN Name(t, ix) ELSE LET up == Path(t, Front(ix)) IN (IF up = "" THEN "" ELSE up \o "/") \o Name(t, ix)
\* one call c on the schema at index path c.at of tree t: answer and new tree ("err": an error, tree unchanged)
Ok(r, t) == [r |-> r, t |-> t]
Err(t) == [r |-> "err", t |-> t]
Step(t, c) ==
  LET at == c.at  x == Get(t, at) IN
  CASE c.c = "fetch" -> LET f == Fetch(t, at, c.p) IN Ok(Path(f.t, f.ix), IF c.lit.k = "none" THEN f.t ELSE Put(f.t, f.ix, c.lit))
    [] c.c = "existing" -> LET ix == Find(t, at, c.p) IN IF Bad(ix) THEN Err(t) ELSE Ok(Path(t, ix), t)
    [] c.c = "add" -> LET i == Pos(x, c.s) IN IF i # 0 THEN Ok(Path(t, Append(at, i)), t)
                      ELSE LET y == IF x.k = "o" THEN x ELSE Obj  z == [y EXCEPT !.nm = Append(@, c.s), !.ch = Append(@, E)]  t2 == Put(t, at, z) IN Ok(Path(t2, Append(at, Len(z.ch))), t2)
    [] c.c = "append" -> LET y == IF x.k = "l" THEN x ELSE Lst  z == [y EXCEPT !.ch = Append(@, E)]  t2 == Put(t, at, z) IN Ok(Path(t2, Append(at, Len(z.ch))), t2)
    [] c.c = "rmi" -> IF x.k \notin {"o", "l"} \/ c.i > Len(x.ch) THEN Err(t)
                      ELSE Ok("", Put(t, at, [x EXCEPT !.ch = Cut(@, c.i), !.nm = IF x.k = "o" THEN Cut(@, c.i) ELSE @]))
    [] c.c = "rmp" -> IF ~Down(x, c.p) THEN Err(t) ELSE LET ix == Find(t, at, c.p)  up == Front(ix)  y == Get(t, up)  i == ix[Len(ix)] IN Ok("", Put(t, up, [y EXCEPT !.ch = Cut(@, i), !.nm = Cut(@, i)]))
    [] c.c = "rmc" -> LET i == Pos(x, c.s) IN IF i = 0 THEN Err(t) ELSE Ok("", Put(t, at, [x EXCEPT !.ch = Cut(@, i), !.nm = Cut(@, i)]))
    [] c.c = "rename" -> LET i == Pos(x, c.s) IN IF i = 0 \/ Pos(x, c.s2) # 0 THEN Err(t) ELSE Ok("", Put(t, at, [x EXCEPT !.nm[i] = c.s2]))
    [] c.c = "set" -> Ok("", Put(t, at, c.lit))
    [] c.c = "reset" -> Ok("", Put(t, at, E))
    [] c.c = "has_child" -> Ok(IF Pos(x, c.s) # 0 THEN "1" ELSE "0", t)
    [] c.c = "has_path" -> Ok(IF x.k = "o" /\ Down(x, c.p) THEN "1" ELSE "0", t)
    [] c.c = "child_index" -> LET i == Pos(x, c.s) IN IF i = 0 THEN Err(t) ELSE Ok(ToString(i - 1), t)
    [] c.c = "child_name" -> Ok(IF x.k = "o" /\ c.i <= Len(x.nm) THEN x.nm[c.i] ELSE "", t)
    [] c.c = "child" -> LET i == Pos(x, c.s) IN IF i = 0 THEN Err(t) ELSE Ok(Path(t, Append(at, i)), t)
    [] c.c = "name" -> Ok(Name(t, at) \o "|" \o Path(t, at), t)
    [] c.c = "compatible" -> Ok(IF Compat(x, c.lit) THEN "1" ELSE "0", t)
    [] c.c = "equals" -> Ok(IF Equal(x, c.lit) THEN "1" ELSE "0", t)
RECURSIVE Run(_, _, _)
Run(t, cs, outs) == IF cs = <<>> THEN 0
                    ELSE LET r == Step(t, Head(cs)) IN
                         IF Head(outs).r = r.r /\ Head(outs).t = r.t THEN Run(r.t, Tail(cs), Tail(outs)) ELSE Len(outs)
Left(e) == Run(E, e.h, e.out.h)         \* calls left when the first wrong answer came (0: none wrong)
Valid(e) == Left(e) = 0
RECURSIVE After(_, _)
After(t, cs) == IF cs = <<>> THEN t ELSE After(Step(t, Head(cs)).t, Tail(cs))
Show(e) == LET n == Len(e.h) - Left(e) + 1 IN [call |-> n, what |-> e.h[n], expected |-> Step(After(E, SubSeq(e.h, 1, n - 1)), e.h[n])]
=============================================================================
