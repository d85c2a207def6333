------------------------------ MODULE IoModel -------------------------------
(* relay::io: files as trees, and handles that edit them.                    *)
EXTENDS Tree
Files == {"f", "g"}
None == [ET EXCEPT !.k = "none"]
NoH == [open |-> FALSE, file |-> "", mode |-> {}, proto |-> "", node |-> ET]
Init0 == [files |-> [x \in Files |-> None], h |-> [x \in {0, 1} |-> NoH]]
H5(e) == e.proto = "hdf5"
(* ---- HDF5: a tree can only be written over a compatible one              *)
RECURSIVE Fits(_, _), H5Read(_, _, _), H5Put(_, _)
Fits(d, s) ==
  CASE s.k = "o" -> d.k = "o" /\ \A i \in 1..Len(s.ch) : Has(d, s.nm[i]) => Fits(Kid(d, s.nm[i]), s.ch[i])
    [] s.k = "l" -> d.k = "l" /\ \A i \in 1..MinOf(Len(s.ch), Len(d.ch)) : Fits(d.ch[i], s.ch[i])
    [] s.k = "e" -> d.k = "e"
    [] s.k = "d" -> d.k = "d" /\ d.t = s.t /\ d.n = s.n
(* merging a tree into a file keeps what is there and adds what is missing   *)
H5Put(d, s) ==
  CASE s.k = "o" -> LET f(a, i) == PutKid(a, s.nm[i], IF Has(a, s.nm[i]) THEN H5Put(Kid(a, s.nm[i]), s.ch[i]) ELSE s.ch[i])
                    IN Fold1(f, d, Len(s.ch))
    [] s.k = "l" -> LET f(a, i) == IF i <= Len(a.ch) THEN [a EXCEPT !.ch[i] = H5Put(@, s.ch[i])]
                                   ELSE [a EXCEPT !.ch = Append(@, s.ch[i])]
                    IN Fold1(f, d, Len(s.ch))
    [] OTHER -> s
(* reading a file tree s into a node d gives r: s over d. A longer array of  *)
(* the same type may keep its tail; an empty leaf empties the node.          *)
H5Read(d, s, r) ==
  CASE s.k = "e" -> r = ET
    [] s.k = "o" -> LET b == AsObj(d)
                        new == SelectSeq(s.nm, LAMBDA x : ~Has(b, x))
                    IN /\ r.k = "o" /\ r.nm = b.nm \o new
                       /\ \A i \in 1..Len(r.ch) :
                            IF Has(s, r.nm[i])
                            THEN H5Read(IF Has(b, r.nm[i]) THEN Kid(b, r.nm[i]) ELSE ET, Kid(s, r.nm[i]), r.ch[i])
                            ELSE r.ch[i] = Kid(b, r.nm[i])
    [] s.k = "l" -> LET b == IF d.k = "l" THEN d.ch ELSE <<>> IN
                    /\ r.k = "l" /\ Len(r.ch) = (IF Len(b) > Len(s.ch) THEN Len(b) ELSE Len(s.ch))
                    /\ \A i \in 1..Len(r.ch) :
                         IF i <= Len(s.ch) THEN H5Read(IF i <= Len(b) THEN b[i] ELSE ET, s.ch[i], r.ch[i])
                         ELSE r.ch[i] = b[i]
    [] OTHER -> r = s \/ r = Update(d, s)
Wrap(s, p) == Put(ET, p, s)
R(st, ok, res, post) == [st |-> st, ok |-> ok, res |-> res, post |-> post]
(* text files end a string at its first NUL                                 *)
TextProtos == {"json", "yaml", "conduit_json"}
RECURSIVE Text(_, _)
Text(t, fixed) ==
  IF t.k = "d" /\ t.t = "char8_str" /\ \E i \in 1..t.n : t.v[i] = "00"
  THEN LET i == CHOOSE i \in 1..t.n : t.v[i] = "00" /\ \A j \in 1..(i - 1) : t.v[j] # "00"
       IN IF fixed THEN [t EXCEPT !.v = [j \in 1..t.n |-> IF j > i THEN "00" ELSE @[j]]]
          ELSE [t EXCEPT !.n = i, !.v = SubSeq(@, 1, i)]
  ELSE [t EXCEPT !.ch = [i \in 1..Len(@) |-> Text(@[i], fixed)]]
(* YAML has no text for a container without children                        *)
RECURSIVE NoHollow(_)
NoHollow(t) == IF t.k \in {"o", "l"} /\ t.ch = <<>> THEN ET
               ELSE [t EXCEPT !.ch = [i \in 1..Len(@) |-> NoHollow(@[i])]]
OnDisk(p, t) == IF p = "yaml" THEN NoHollow(Text(t, FALSE)) ELSE IF p \in TextProtos THEN Text(t, p = "conduit_json") ELSE t
SetF(st, f, t) == [st EXCEPT !.files[f] = t]
IsCont(t) == t.k \in {"o", "l"}
Save(st, e) ==
  LET old == st.files[e.file]  new == Wrap(e.arg, e.sub) IN
  IF H5(e) THEN IF IsCont(new) THEN R(SetF(st, e.file, new), TRUE, <<>>, e.arg)
                ELSE R(SetF(st, e.file, OT), FALSE, <<>>, e.arg)
  ELSE IF e.sub = <<>> THEN R(SetF(st, e.file, OnDisk(e.proto, e.arg)), TRUE, <<>>, e.arg)
  ELSE IF old = None THEN R(st, FALSE, <<>>, e.arg)
  ELSE R(SetF(st, e.file, OnDisk(e.proto, Put(old, e.sub, e.arg))), TRUE, <<>>, e.arg)
WriteInto(t, h5, p, s) ==
  LET w == Wrap(s, p) IN
  IF h5 THEN IF Fits(t, w) THEN <<TRUE, H5Put(t, w)>> ELSE <<FALSE, t>>
  ELSE <<TRUE, Put(t, p, Update(GetOr(t, p), s))>>
Merge(st, e) ==
  LET old == IF st.files[e.file] = None THEN (IF H5(e) THEN OT ELSE ET) ELSE st.files[e.file]
      w == WriteInto(old, H5(e), e.sub, e.arg)
  IN R(SetF(st, e.file, OnDisk(e.proto, w[2])), w[1], <<>>, e.arg)
ReadOut(t, h5, p, d, got) ==
  IF h5 THEN IF HasPath(t, p) THEN <<TRUE, IF H5Read(d, Get(t, p), got) THEN got ELSE Get(t, p)>> ELSE <<FALSE, d>>
  ELSE <<TRUE, Update(d, GetOr(t, p))>>
Load(st, e, d) ==
  LET t == st.files[e.file] IN
  IF t = None THEN R(st, FALSE, <<>>, d)
  ELSE LET r == ReadOut(t, H5(e), e.sub, d, e.post) IN R(st, r[1], <<>>, r[2])
(* ---- handles                                                              *)
Modes(m) == CASE m = "" -> {"r", "w", "a"} [] m = "r" -> {"r", "a"} [] m = "w" -> {"w", "a"}
              [] m = "rw" -> {"r", "w", "a"} [] m = "wt" -> {"w", "t"} [] m = "rwt" -> {"r", "w", "t"}
              [] m = "rwa" -> {"r", "w", "a"} [] m = "wa" -> {"w", "a"} [] m = "rt" -> {"r", "t"}
              [] OTHER -> {}
H(st, e) == st.h[e.h]
SetH(st, e, x) == [st EXCEPT !.h[e.h] = x]
Open(st, e) ==
  LET m == Modes(e.mode)  old == st.files[e.file]
      start == IF old = None \/ ("t" \in m /\ "w" \in m) THEN (IF H5(e) THEN OT ELSE ET) ELSE old
      bad == m = {} \/ ("w" \notin m /\ old = None)
      hh == [open |-> TRUE, file |-> e.file, mode |-> m, proto |-> e.proto, node |-> start]
  IN IF bad THEN R(SetH(st, e, NoH), FALSE, <<>>, e.arg)
     ELSE R(SetH(st, e, hh), TRUE, <<>>, e.arg)
Close(st, e) ==
  LET x == H(st, e) IN
  IF ~x.open THEN R(st, TRUE, <<>>, e.arg)
  ELSE LET s1 == SetH(st, e, NoH) IN
       R(IF "w" \in x.mode THEN SetF(s1, x.file, OnDisk(x.proto, x.node)) ELSE s1, TRUE, <<>>, e.arg)
CanR(st, e) == H(st, e).open /\ "r" \in H(st, e).mode
CanW(st, e) == H(st, e).open /\ "w" \in H(st, e).mode
Fail(st, e) == R(st, FALSE, <<>>, e.arg)
Write(st, e) ==
  IF ~CanW(st, e) THEN Fail(st, e)
  ELSE LET w == WriteInto(H(st, e).node, H5(H(st, e)), e.path, e.arg) IN
       R([st EXCEPT !.h[e.h].node = w[2]], w[1], <<>>, e.arg)
Read(st, e) ==
  IF ~CanR(st, e) THEN Fail(st, e)
  ELSE LET r == ReadOut(H(st, e).node, H5(H(st, e)), e.path, e.arg, e.post) IN R(st, r[1], <<>>, r[2])
RemoveP(st, e) ==
  IF ~CanW(st, e) \/ ~HasPath(H(st, e).node, e.path) THEN Fail(st, e)
  ELSE R([st EXCEPT !.h[e.h].node = Del(@, e.path)], TRUE, <<>>, e.arg)
List(st, e) ==
  IF ~CanR(st, e) THEN Fail(st, e)
  ELSE LET t == GetOr(H(st, e).node, e.path) IN
       R(st, TRUE, IF t.k = "l" THEN e.res ELSE t.nm, e.arg)  \* the entries of a list have no names
HasP(st, e) ==
  IF ~CanR(st, e) THEN Fail(st, e) ELSE R(st, TRUE, <<HasPath(H(st, e).node, e.path)>>, e.arg)
Step(st, e) ==
  CASE e.op = "save" -> Save(st, e)
    [] e.op = "merge" -> Merge(st, e)
    [] e.op = "load" -> LET r == Load(st, e, ET) IN
                        IF r.ok THEN [r EXCEPT !.post = GetOr(st.files[e.file], e.sub)] ELSE r
    [] e.op = "loadm" -> Load(st, e, e.arg)
    [] e.op = "open" -> Open(st, e)
    [] e.op = "close" -> Close(st, e)
    [] e.op = "isopen" -> R(st, TRUE, <<H(st, e).open>>, e.arg)
    [] e.op = "write" -> Write(st, e)
    [] e.op = "read" -> Read(st, e)
    [] e.op = "remove" -> RemoveP(st, e)
    [] e.op = "list" -> List(st, e)
    [] e.op = "has" -> HasP(st, e)
=============================================================================
