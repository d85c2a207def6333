------------------------------ MODULE NodeModel ------------------------------
(***************************************************************************)
(* Sequential model of conduit::Node / conduit::Schema.                     *)
(*                                                                          *)
(* A state holds three root nodes (1 and 2: ordinary trees, 3: a "view"     *)
(* tree that only ever aliases other memory) and the memory they refer to:  *)
(* a sequence of byte buffers.  The first NX buffers belong to the caller   *)
(* ("external" arrays), the others were allocated by the library.           *)
(*                                                                          *)
(* A node is a record                                                       *)
(*   k   kind: "e" empty, "o" object, "l" list, "d" leaf with data          *)
(*   nm  child names (objects), ch  children                                *)
(*   t n o s eb en  the leaf's data type: type name, number of elements,    *)
(*       offset, stride, element bytes, endianness                          *)
(*   b bo  buffer id (0: none) and base offset the leaf's data starts at    *)
(*   ob  buffer owned by this node (0: none); it dies with the node's data  *)
(*                                                                          *)
(* Step(st, op) is the (deterministic) effect of one public call: the next  *)
(* state, whether the call succeeded and what it returned.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NX == 5

Empty == [k |-> "e", nm |-> <<>>, ch |-> <<>>, t |-> "", n |-> 0, o |-> 0,
          s |-> 0, eb |-> 0, en |-> "", b |-> 0, bo |-> 0, ob |-> 0]
Object0 == [Empty EXCEPT !.k = "o"]
List0   == [Empty EXCEPT !.k = "l"]

DefaultBytes(t) ==
    CASE t \in {"int8", "uint8", "char8_str"} -> 1
      [] t \in {"int16", "uint16"} -> 2
      [] t \in {"int32", "uint32", "float32"} -> 4
      [] OTHER -> 8

Leaf(t, n, o, s, b, bo, ob) ==
    [Empty EXCEPT !.k = "d", !.t = t, !.n = n, !.o = o, !.s = s,
                  !.eb = DefaultBytes(t), !.en = "default",
                  !.b = b, !.bo = bo, !.ob = ob]

Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
RemAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
IndexIn(q, x) == IF \E i \in 1..Len(q) : q[i] = x
                 THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Zeros(n) == [i \in 1..n |-> 0]
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(***************************************************************************)
(* Tree addressing: an address is <<root, i1, i2, ...>> (1-based).          *)
(***************************************************************************)
RECURSIVE GetIn(_, _)
GetIn(nd, ip) == IF ip = <<>> THEN nd ELSE GetIn(nd.ch[Head(ip)], Tail(ip))
RECURSIVE PutIn(_, _, _)
PutIn(nd, ip, new) ==
    IF ip = <<>> THEN new
    ELSE [nd EXCEPT !.ch = [@ EXCEPT ![Head(ip)] = PutIn(@, Tail(ip), new)]]
Get(st, a) == GetIn(st.r[Head(a)], Tail(a))
Put(st, a, new) == [st EXCEPT !.r = [@ EXCEPT ![Head(a)] = PutIn(@, Tail(a), new)]]
Parent(a) == SubSeq(a, 1, Len(a) - 1)

(***************************************************************************)
(* Memory                                                                   *)
(***************************************************************************)
RECURSIVE OwnedBy(_)
OwnedBy(nd) == (IF nd.ob = 0 THEN {} ELSE {nd.ob})
               \cup UNION {OwnedBy(nd.ch[i]) : i \in 1..Len(nd.ch)}
Kill(st, bufs) ==
    [st EXCEPT !.m = [i \in 1..Len(@) |->
                        IF i \in bufs THEN [@[i] EXCEPT !.lv = FALSE] ELSE @[i]]]
Alloc(st, by) == [st EXCEPT !.m = Append(@, [by |-> by, lv |-> TRUE])]
NewBuf(st) == Len(st.m) + 1
\* drop the data and the children of the node at a, leave `new' there
Renew(st, a, new) == Put(Kill(st, OwnedBy(Get(st, a))), a, new)

Span(nd) == nd.o + nd.s * (nd.n - 1) + nd.eb
ElemOff(nd, i) == nd.bo + nd.o + nd.s * i          \* i is 0-based
ElemBytes(st, nd, i) ==
    LET w == DefaultBytes(nd.t) IN
    SubSeq(st.m[nd.b].by, ElemOff(nd, i) + 1, ElemOff(nd, i) + w)
Values(st, nd) == Flat([i \in 1..nd.n |-> ElemBytes(st, nd, i - 1)])
WriteAt(by, off, new) ==
    [i \in 1..Len(by) |-> IF i > off /\ i <= off + Len(new) THEN new[i - off] ELSE by[i]]
RECURSIVE WriteElems(_, _, _, _)
\* write vals (a sequence of element byte sequences) to elements i, i+1, ...
WriteElems(st, nd, i, vals) ==
    IF vals = <<>> THEN st
    ELSE WriteElems([st EXCEPT !.m = [@ EXCEPT ![nd.b] =
                        [@ EXCEPT !.by = WriteAt(@, ElemOff(nd, i), Head(vals))]]],
                    nd, i + 1, Tail(vals))

CompactBytes(nd) == DefaultBytes(nd.t) * nd.n
RECURSIVE TotalCompact(_)
TotalCompact(nd) == IF nd.k = "d" THEN CompactBytes(nd)
                    ELSE SumSeq([i \in 1..Len(nd.ch) |-> TotalCompact(nd.ch[i])])
RECURSIVE AllValues(_, _)
AllValues(st, nd) == IF nd.k = "d" THEN Values(st, nd)
                     ELSE Flat([i \in 1..Len(nd.ch) |-> AllValues(st, nd.ch[i])])
RECURSIVE CompactTree(_, _, _)
\* the same tree with every leaf packed into buffer b, from offset off on
CompactTree(nd, off, b) ==
    IF nd.k = "d"
    THEN [nd EXCEPT !.o = off, !.s = DefaultBytes(nd.t), !.eb = DefaultBytes(nd.t),
                    !.b = b, !.bo = 0, !.ob = 0]
    ELSE LET before(i) == SumSeq([j \in 1..(i - 1) |-> TotalCompact(nd.ch[j])])
         IN  [nd EXCEPT !.ob = 0, !.b = 0, !.bo = 0,
                        !.ch = [i \in 1..Len(nd.ch) |->
                                  CompactTree(nd.ch[i], off + before(i), b)]]

(***************************************************************************)
(* Copying                                                                  *)
(***************************************************************************)
\* compact a copy of node nd (of state st) into address a
CompactInto(st, a, nd) ==
    LET st1 == Renew(st, a, Empty)
        sz  == TotalCompact(nd)
        b   == IF sz > 0 THEN NewBuf(st1) ELSE 0
        st2 == IF sz > 0 THEN Alloc(st1, AllValues(st, nd)) ELSE st1
    IN  Put(st2, a, [CompactTree(nd, 0, b) EXCEPT !.ob = b])

RECURSIVE CopyInto(_, _, _), CopyKids(_, _, _, _)
\* set(node): deep copy, one buffer per leaf
CopyInto(st, a, nd) ==
    CASE nd.k = "e" -> Renew(st, a, Empty)
      [] nd.k = "d" -> CompactInto(st, a, nd)
      [] OTHER -> CopyKids(Renew(st, a, [Empty EXCEPT !.k = nd.k, !.nm = nd.nm,
                                   !.ch = [i \in 1..Len(nd.ch) |-> Empty]]), a, nd, 1)
CopyKids(st, a, nd, i) ==
    IF i > Len(nd.ch) THEN st
    ELSE CopyKids(CopyInto(st, Append(a, i), nd.ch[i]), a, nd, i + 1)

RECURSIVE Mirror(_)
\* set_external(node): same structure and layout, memory shared, nothing owned
Mirror(nd) == [nd EXCEPT !.ob = 0, !.ch = [i \in 1..Len(nd.ch) |-> Mirror(nd.ch[i])]]

(***************************************************************************)
(* Children                                                                 *)
(***************************************************************************)
HasChild(nd, name) == nd.k = "o" /\ \E i \in 1..Len(nd.nm) : nd.nm[i] = name
\* the node at a becomes an object (data and list entries are dropped)
AsObject(st, a) == IF Get(st, a).k = "o" THEN st ELSE Renew(st, a, Object0)
AsList(st, a)   == IF Get(st, a).k = "l" THEN st ELSE Renew(st, a, List0)
AddChild(st, a, name) ==
    LET st1 == AsObject(st, a) nd == Get(st1, a) IN
    IF HasChild(nd, name) THEN st1
    ELSE Put(st1, a, [nd EXCEPT !.nm = Append(@, name), !.ch = Append(@, Empty)])
AppendChild(st, a) ==
    LET st1 == AsList(st, a) nd == Get(st1, a) IN
    Put(st1, a, [nd EXCEPT !.ch = Append(@, Empty)])
DropChild(st, a, i) ==
    LET nd == Get(st, a) IN
    Put(Kill(st, OwnedBy(nd.ch[i])), a,
        [nd EXCEPT !.ch = RemAt(@, i), !.nm = IF nd.k = "o" THEN RemAt(@, i) ELSE @])

(***************************************************************************)
(* Results.  ip: address of a returned node, s: string, b: boolean,         *)
(* l: sequence of strings, kept: the leaf kept its memory                   *)
(***************************************************************************)
R0 == [ip |-> <<>>, s |-> "", b |-> FALSE, l |-> <<>>, kept |-> FALSE]
Out(st, ok, res) == [st |-> st, ok |-> ok, res |-> res]
Ok(st)      == Out(st, TRUE, R0)
OkAt(st, a) == Out(st, TRUE, [R0 EXCEPT !.ip = a])
Err(st)     == Out(st, FALSE, R0)

(***************************************************************************)
(* Paths are token sequences: names and "/" separators.                     *)
(***************************************************************************)
Cur(pt)  == IF pt = <<>> \/ Head(pt) = "/" THEN "" ELSE Head(pt)
Next1(pt) == IF pt = <<>> THEN <<>>
            ELSE IF Head(pt) = "/" THEN Tail(pt)
            ELSE IF Len(pt) = 1 THEN <<>> ELSE SubSeq(pt, 3, Len(pt))

RECURSIVE Fetch(_, _, _)
Fetch(st, a, pt) ==
    IF pt = <<>> THEN Err(st)
    ELSE LET c == Cur(pt) n == Next1(pt) IN
         CASE c = ""   -> Fetch(st, a, n)
           [] c = ".." -> IF Len(a) = 1 THEN Err(st) ELSE Fetch(st, Parent(a), n)
           [] OTHER    -> LET st1 == AddChild(st, a, c)
                              a1  == Append(a, IndexIn(Get(st1, a).nm, c))
                          IN  IF n = <<>> THEN OkAt(st1, a1) ELSE Fetch(st1, a1, n)

RECURSIVE FetchExisting(_, _, _)
FetchExisting(st, a, pt) ==
    LET nd == Get(st, a) IN
    IF nd.k # "o" \/ pt = <<>> THEN Err(st)
    ELSE LET c == Cur(pt) n == Next1(pt) IN
         CASE c = ""   -> FetchExisting(st, a, n)
           [] c = ".." -> IF Len(a) = 1 THEN Err(st) ELSE FetchExisting(st, Parent(a), n)
           [] OTHER    -> IF ~HasChild(nd, c) THEN Err(st)
                          ELSE LET a1 == Append(a, IndexIn(nd.nm, c))
                               IN  IF n = <<>> THEN OkAt(st, a1) ELSE FetchExisting(st, a1, n)

RECURSIVE HasPath(_, _)
HasPath(nd, pt0) ==
    IF nd.k # "o" THEN FALSE
    ELSE LET pt == IF pt0 # <<>> /\ Head(pt0) = "/" THEN Tail(pt0) ELSE pt0
             c == Cur(pt) n == Next1(pt)
         IN  IF ~HasChild(nd, c) THEN FALSE
             ELSE IF n = <<>> THEN TRUE ELSE HasPath(nd.ch[IndexIn(nd.nm, c)], n)

RECURSIVE RemovePath(_, _, _)
RemovePath(st, a, pt) ==
    LET nd == Get(st, a) c == Cur(pt) n == Next1(pt) IN
    IF ~HasChild(nd, c) THEN Err(st)
    ELSE LET i == IndexIn(nd.nm, c) IN
         IF n = <<>> THEN Ok(DropChild(st, a, i)) ELSE RemovePath(st, Append(a, i), n)

\* name of the i-th child, as name() and path() show it
ShowName(nd, i) ==
    IF nd.k = "l" THEN "[" \o ToString(i - 1) \o "]"
    ELSE IF nd.nm[i] \in {"p/q", "a/b"} THEN "{" \o nd.nm[i] \o "}" ELSE nd.nm[i]
NameOf(st, a) == IF Len(a) = 1 THEN "" ELSE ShowName(Get(st, Parent(a)), a[Len(a)])
RECURSIVE PathOf(_, _)
PathOf(st, a) ==
    IF Len(a) = 1 THEN ""
    ELSE LET p == PathOf(st, Parent(a)) IN
         (IF p = "" THEN "" ELSE p \o "/") \o NameOf(st, a)

(***************************************************************************)
(* Leaf data                                                                *)
(***************************************************************************)
\* dtype compatibility: a value of type t with n elements fits into nd
Fits(nd, t, n) == nd.k = "d" /\ nd.t = t /\ nd.eb = DefaultBytes(t) /\ nd.n >= n

\* set(values): in place if the present leaf is compatible, else a new buffer
SetValues(st, a, t, vals) ==
    LET nd == Get(st, a) IN
    IF Fits(nd, t, Len(vals))
    THEN Out(WriteElems(st, nd, 0, vals), TRUE, [R0 EXCEPT !.kept = TRUE])
    ELSE LET st1 == Renew(st, a, Empty)
             w   == DefaultBytes(t)
             b   == NewBuf(st1)
         IN  Ok(Put(Alloc(st1, Flat(vals)), a, Leaf(t, Len(vals), 0, w, b, 0, b)))

\* set(dtype): like set(values) with zeros, but an existing compatible leaf is untouched
SetDType(st, a, t, n, o, s) ==
    LET nd == Get(st, a) IN
    IF Fits(nd, t, n) THEN Out(st, TRUE, [R0 EXCEPT !.kept = TRUE])
    ELSE LET st1 == Renew(st, a, Empty)
             b   == NewBuf(st1)
             lf  == Leaf(t, n, o, s, b, 0, b)
         IN  Ok(Put(Alloc(st1, Zeros(Span(lf))), a, lf))

\* set(dtype, ptr): always a fresh buffer holding a copy of the spanned bytes
SetDTypeData(st, a, t, n, o, s, by) ==
    LET st1 == Renew(st, a, Empty)
        b   == NewBuf(st1)
    IN  Ok(Put(Alloc(st1, by), a, Leaf(t, n, o, s, b, 0, b)))

SetExternal(st, a, t, n, o, s, x) ==
    Ok(Put(Renew(st, a, Empty), a, Leaf(t, n, o, s, x, 0, 0)))

\* A schema argument is a tree of [k, nm, ch, t, n, o, s]
RECURSIVE Shape(_, _, _), ShapeSpan(_), ShapeCompact(_), ShapePacked(_, _, _, _)
Shape(sc, b, bo) ==
    CASE sc.k = "d" -> Leaf(sc.t, sc.n, sc.o, sc.s, b, bo, 0)
      [] sc.k = "e" -> Empty
      [] OTHER -> [Empty EXCEPT !.k = sc.k, !.nm = sc.nm,
                     !.ch = [i \in 1..Len(sc.ch) |-> Shape(sc.ch[i], b, bo)]]
ShapeSpan(sc) ==
    CASE sc.k = "d" -> sc.o + sc.s * (sc.n - 1) + DefaultBytes(sc.t)
      [] sc.k = "e" -> 0
      [] OTHER -> LET sp == {ShapeSpan(sc.ch[i]) : i \in 1..Len(sc.ch)} \cup {0}
                  IN  CHOOSE x \in sp : \A y \in sp : y <= x
ShapeCompact(sc) ==
    IF sc.k = "d" THEN sc.n * DefaultBytes(sc.t)
    ELSE SumSeq([i \in 1..Len(sc.ch) |-> ShapeCompact(sc.ch[i])])
ShapePacked(sc, b, bo, off) ==
    CASE sc.k = "d" -> Leaf(sc.t, sc.n, off, DefaultBytes(sc.t), b, bo, 0)
      [] sc.k = "e" -> Empty
      [] OTHER -> LET before(i) == SumSeq([j \in 1..(i - 1) |-> ShapeCompact(sc.ch[j])])
                  IN [Empty EXCEPT !.k = sc.k, !.nm = sc.nm,
                        !.ch = [i \in 1..Len(sc.ch) |->
                                  ShapePacked(sc.ch[i], b, bo, off + before(i))]]

\* set(schema) / set(schema, ptr): one buffer at the root of the new tree
SetSchema(st, a, sc, by) ==
    LET st1 == Renew(st, a, Empty)
        b   == IF by = <<>> THEN 0 ELSE NewBuf(st1)
        st2 == IF by = <<>> THEN st1 ELSE Alloc(st1, by)
    IN  Ok(Put(st2, a, [Shape(sc, b, 0) EXCEPT !.ob = b]))
SetExternalSchema(st, a, sc, x) == Ok(Put(Renew(st, a, Empty), a, Shape(sc, x, 0)))
\* list_of(schema, n): n packed entries in one zeroed buffer
ListOf(st, a, sc, n, x) ==
    LET w   == ShapeCompact(sc)
        st1 == Renew(st, a, Empty)
        own == x = 0 /\ w * n > 0
        b   == IF x # 0 THEN x ELSE IF own THEN NewBuf(st1) ELSE 0
        st2 == IF own THEN Alloc(st1, Zeros(w * n)) ELSE st1
    IN  Ok(Put(st2, a, [List0 EXCEPT !.ob = IF own THEN b ELSE 0,
                           !.ch = [i \in 1..n |-> ShapePacked(sc, b, (i - 1) * w, 0)]]))

(***************************************************************************)
(* update / update_compatible / update_external                             *)
(***************************************************************************)
CopyElems(st, nd, src) ==
    LET RECURSIVE Go(_, _)
        Go(s0, i) == IF i >= src.n THEN s0
                     ELSE Go(WriteElems(s0, nd, i, <<ElemBytes(s0, src, i)>>), i + 1)
    IN  Go(st, 0)
UpdFits(nd, src) == nd.k = "d" /\ nd.t = src.t /\ nd.n >= src.n

RECURSIVE Update(_, _, _), UpdObj(_, _, _, _), UpdList(_, _, _, _)
Update(st, a, src) ==
    CASE src.k = "e" -> st
      [] src.k = "o" -> UpdObj(st, a, src, 1)
      [] src.k = "l" -> UpdList(st, a, src, 1)
      [] OTHER -> IF UpdFits(Get(st, a), src) THEN CopyElems(st, Get(st, a), src)
                  ELSE CompactInto(st, a, src)
UpdObj(st, a, src, i) ==
    IF i > Len(src.ch) THEN st
    ELSE LET st1 == AddChild(st, a, src.nm[i])
             a1  == Append(a, IndexIn(Get(st1, a).nm, src.nm[i]))
         IN  UpdObj(Update(st1, a1, src.ch[i]), a, src, i + 1)
UpdList(st, a, src, i) ==
    IF i > Len(src.ch) THEN st
    ELSE LET nd  == Get(st, a)
             st1 == IF nd.k = "l" /\ i <= Len(nd.ch) THEN st ELSE AppendChild(st, a)
         IN  UpdList(Update(st1, Append(a, i), src.ch[i]), a, src, i + 1)

RECURSIVE UpdateC(_, _, _), UpdCKids(_, _, _, _)
UpdateC(st, a, src) ==
    CASE src.k = "e" -> st
      [] src.k \in {"o", "l"} -> UpdCKids(st, a, src, 1)
      [] OTHER -> IF UpdFits(Get(st, a), src) THEN CopyElems(st, Get(st, a), src) ELSE st
UpdCKids(st, a, src, i) ==
    IF i > Len(src.ch) THEN st
    ELSE LET nd == Get(st, a)
             j  == IF src.k = "o"
                   THEN (IF HasChild(nd, src.nm[i]) THEN IndexIn(nd.nm, src.nm[i]) ELSE 0)
                   ELSE (IF nd.k = "l" /\ i <= Len(nd.ch) THEN i ELSE 0)
         IN  UpdCKids(IF j = 0 THEN st ELSE UpdateC(st, Append(a, j), src.ch[i]), a, src, i + 1)

RECURSIVE UpdateX(_, _, _), UpdXObj(_, _, _, _), UpdXList(_, _, _, _)
UpdateX(st, a, src) ==
    CASE src.k = "e" -> st
      [] src.k = "o" -> UpdXObj(st, a, src, 1)
      [] src.k = "l" -> UpdXList(st, a, src, 1)
      [] OTHER -> Put(Renew(st, a, Empty), a, Mirror(src))
UpdXObj(st, a, src, i) ==
    IF i > Len(src.ch) THEN st
    ELSE LET st1 == AddChild(st, a, src.nm[i])
             a1  == Append(a, IndexIn(Get(st1, a).nm, src.nm[i]))
         IN  UpdXObj(UpdateX(st1, a1, src.ch[i]), a, src, i + 1)
UpdXList(st, a, src, i) ==
    IF i > Len(src.ch) THEN st
    ELSE LET nd  == Get(st, a)
             st1 == IF nd.k = "l" /\ i <= Len(nd.ch) THEN st ELSE AppendChild(st, a)
         IN  UpdXList(UpdateX(st1, Append(a, i), src.ch[i]), a, src, i + 1)

(***************************************************************************)
(* endian_swap                                                              *)
(***************************************************************************)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Eff(en) == IF en = "default" THEN "little" ELSE en
RECURSIVE EndianSwap(_, _, _), EndianKids(_, _, _, _)
EndianSwap(st, a, en) ==
    LET nd == Get(st, a) IN
    CASE nd.k \in {"o", "l"} -> EndianKids(st, a, en, 1)
      [] nd.k = "e" -> st
      [] OTHER -> LET swp == Eff(nd.en) # Eff(en)
                      st1 == IF swp THEN WriteElems(st, nd, 0,
                                 [i \in 1..nd.n |-> Rev(ElemBytes(st, nd, i - 1))]) ELSE st
                  IN  Put(st1, a, [nd EXCEPT !.en = Eff(en)])
EndianKids(st, a, en, i) ==
    IF i > Len(Get(st, a).ch) THEN st
    ELSE EndianKids(EndianSwap(st, Append(a, i), en), a, en, i + 1)

(***************************************************************************)
(* Child iterators: a cursor c in 0..nc; the current child is c-1.          *)
(***************************************************************************)
IterMove(nc, c, m) ==
    CASE m = "hn"    -> [c |-> c, r |-> IF c < nc THEN "T" ELSE "F"]
      [] m = "hp"    -> [c |-> c, r |-> IF c > 1 THEN "T" ELSE "F"]
      [] m = "front" -> [c |-> 0, r |-> "-"]
      [] m = "back"  -> [c |-> nc, r |-> "-"]
      [] m = "next"  -> IF c < nc THEN [c |-> c + 1, r |-> ToString(c)] ELSE [c |-> c, r |-> "E"]
      [] m = "prev"  -> IF c > 1 THEN [c |-> c - 1, r |-> ToString(c - 2)] ELSE [c |-> c, r |-> "E"]
      [] m = "pn"    -> [c |-> c, r |-> IF c < nc THEN ToString(c) ELSE "E"]
      [] m = "pp"    -> [c |-> c, r |-> IF c > 1 THEN ToString(c - 1) ELSE "E"]
RECURSIVE IterRun(_, _, _)
IterRun(nc, c, mv) ==
    IF mv = <<>> THEN <<>>
    ELSE LET x == IterMove(nc, c, Head(mv)) IN <<x.r>> \o IterRun(nc, x.c, Tail(mv))

(***************************************************************************)
(* One public call                                                          *)
(***************************************************************************)
Step(st, op) ==
    LET a  == op.a
        nd == Get(st, a)
    IN
    CASE op.op = "fetch"  -> Fetch(st, a, op.pt)
      [] op.op = "fe"     -> FetchExisting(st, a, op.pt)
      [] op.op = "addc"   -> LET st1 == AddChild(st, a, op.nm)
                             IN  OkAt(st1, Append(a, IndexIn(Get(st1, a).nm, op.nm)))
      [] op.op = "app"    -> LET st1 == AppendChild(st, a)
                             IN  OkAt(st1, Append(a, Len(Get(st1, a).ch)))
      [] op.op = "child"  -> IF op.i + 1 \in 1..Len(nd.ch)
                             THEN OkAt(st, Append(a, op.i + 1)) ELSE Err(st)
      [] op.op = "childn" -> IF HasChild(nd, op.nm)
                             THEN OkAt(st, Append(a, IndexIn(nd.nm, op.nm))) ELSE Err(st)
      [] op.op = "rmp"    -> RemovePath(st, a, op.pt)
      [] op.op = "rmc"    -> IF HasChild(nd, op.nm)
                             THEN Ok(DropChild(st, a, IndexIn(nd.nm, op.nm))) ELSE Err(st)
      [] op.op = "rmi"    -> IF op.i + 1 \in 1..Len(nd.ch)
                             THEN Ok(DropChild(st, a, op.i + 1)) ELSE Err(st)
      [] op.op = "ren"    -> IF HasChild(nd, op.nm) /\ ~HasChild(nd, op.nm2)
                             THEN Ok(Put(st, a, [nd EXCEPT !.nm =
                                        [@ EXCEPT ![IndexIn(@, op.nm)] = op.nm2]]))
                             ELSE Err(st)
      [] op.op = "reset"  -> Ok(Renew(st, a, Empty))
      [] op.op = "move"   -> LET src == Get(st, op.a2)
                             IN  Ok(Put(Renew(st, a, src), op.a2, Empty))
      [] op.op = "swap"   -> LET src == Get(st, op.a2)
                             IN  Ok(Put(Put(st, a, src), op.a2, nd))
      [] op.op = "setv"   -> SetValues(st, a, op.t, op.v)
      [] op.op = "initdt" -> SetDType(st, a, op.t, op.n, op.o, op.s)
      [] op.op = "setdt"  -> SetDTypeData(st, a, op.t, op.n, op.o, op.s, op.by)
      [] op.op = "setx"   -> SetExternal(st, a, op.t, op.n, op.o, op.s, op.x)
      [] op.op = "setn"   -> Ok(CopyInto(st, a, Get(st, op.a2)))
      [] op.op = "setxn"  -> Ok(Put(Renew(st, a, Empty), a, Mirror(Get(st, op.a2))))
      [] op.op = "setsch" -> SetSchema(st, a, op.sc, Zeros(ShapeSpan(op.sc)))
      [] op.op = "setschd" -> SetSchema(st, a, op.sc, op.by)
      [] op.op = "setschx" -> SetExternalSchema(st, a, op.sc, op.x)
      [] op.op = "listof" -> ListOf(st, a, op.sc, op.n, op.x)
      [] op.op = "upd"    -> Ok(Update(st, a, Get(st, op.a2)))
      [] op.op = "updc"   -> Ok(UpdateC(st, a, Get(st, op.a2)))
      [] op.op = "updx"   -> Ok(UpdateX(st, a, Get(st, op.a2)))
      [] op.op = "compact" -> Ok(CompactInto(st, a, Get(st, op.a2)))
      [] op.op = "endian" -> Ok(EndianSwap(st, a, op.en))
      [] op.op = "wrx"    -> Ok([st EXCEPT !.m = [@ EXCEPT ![op.x] =
                                   [@ EXCEPT !.by = WriteAt(@, op.i, op.by)]]])
      [] op.op = "wre"    -> Out(WriteElems(st, nd, op.i, <<op.by>>), TRUE, [R0 EXCEPT !.kept = TRUE])
      [] op.op = "qpath"  -> Out(st, TRUE, [R0 EXCEPT !.b = HasPath(nd, op.pt)])
      [] op.op = "qchild" -> Out(st, TRUE, [R0 EXCEPT !.b = HasChild(nd, op.nm)])
      [] op.op = "qname"  -> Out(st, TRUE, [R0 EXCEPT !.s = PathOf(st, a), !.l = <<NameOf(st, a)>>])
      [] op.op = "qpar"   -> IF Len(a) = 1 THEN Ok(st) ELSE OkAt(st, Parent(a))
      [] op.op = "iter"   -> Out(st, TRUE, [R0 EXCEPT !.l = IterRun(Len(nd.ch), 0, op.mv)])
      \* a read-only call: nothing changes
      [] op.op = "ro"     -> Ok(st)

Init0(xs) == [r |-> <<Empty, Empty, Empty>>,
              m |-> [i \in 1..Len(xs) |-> [by |-> xs[i], lv |-> TRUE]]]

(***************************************************************************)
(* Observation: what a client (plus the allocation tracker) can see         *)
(***************************************************************************)
RECURSIVE BufsIn(_)
\* buffers the leaves refer to, in document order
BufsIn(nd) == IF nd.k = "d" THEN (IF nd.n = 0 THEN <<>> ELSE <<nd.b>>)
              ELSE Flat([i \in 1..Len(nd.ch) |-> BufsIn(nd.ch[i])])
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>>
            ELSE LET d == Dedup(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN
                 IF IndexIn(d, x) = 0 THEN Append(d, x) ELSE d
RECURSIVE See(_, _, _)
See(st, ids, nd) ==
    LET dead == nd.k = "d" /\ nd.n > 0 /\ ~st.m[nd.b].lv
        data == nd.k = "d" /\ nd.n > 0 /\ ~dead
    IN  [k |-> nd.k, nm |-> nd.nm,
         ch |-> [i \in 1..Len(nd.ch) |-> See(st, ids, nd.ch[i])],
         t |-> nd.t, n |-> nd.n, o |-> nd.o, s |-> nd.s, eb |-> nd.eb, en |-> nd.en,
         v |-> IF data THEN Values(st, nd) ELSE <<>>,
         b |-> IF dead THEN -99 ELSE IF ~data THEN 0
               ELSE IF nd.b <= NX THEN -nd.b ELSE IndexIn(ids, nd.b),
         bo |-> IF data THEN nd.bo ELSE 0]
Observe(st) ==
    LET ids == SelectSeq(Dedup(Flat([i \in 1..3 |-> BufsIn(st.r[i])])),
                         LAMBDA x : x > NX /\ st.m[x].lv)
    IN  [i \in 1..3 |-> See(st, ids, st.r[i])]
Externals(st) == [i \in 1..NX |-> st.m[i].by]
\* number of live buffers the library owns
LiveCount(st) == Cardinality({i \in (NX + 1)..Len(st.m) : st.m[i].lv /\ Len(st.m[i].by) > 0})
AllocBytes(st) == [i \in 1..3 |-> LET ow == OwnedBy(st.r[i]) IN
                    SumSeq([j \in 1..Len(st.m) |-> IF j \in ow THEN Len(st.m[j].by) ELSE 0])]

(***************************************************************************)
(* Design invariants (checked by TLC on the explored model)                 *)
(***************************************************************************)
RECURSIVE WF(_)
WF(nd) == /\ nd.k \in {"e", "o", "l", "d"}
          /\ nd.k = "o" => /\ Len(nd.nm) = Len(nd.ch)
                           /\ \A i, j \in 1..Len(nd.nm) : nd.nm[i] = nd.nm[j] => i = j
          /\ nd.k = "l" => nd.nm = <<>>
          /\ nd.k \in {"e", "d"} => nd.nm = <<>> /\ nd.ch = <<>>
          /\ \A i \in 1..Len(nd.ch) : WF(nd.ch[i])
TreeOK(st) == \A i \in 1..3 : WF(st.r[i])
RECURSIVE OwnSeq(_)
OwnSeq(nd) == (IF nd.ob = 0 THEN <<>> ELSE <<nd.ob>>) \o Flat([i \in 1..Len(nd.ch) |-> OwnSeq(nd.ch[i])])
\* every live library buffer has exactly one owner; externals are never owned nor freed
OwnOK(st) ==
    LET ow == Flat([i \in 1..3 |-> OwnSeq(st.r[i])]) IN
    /\ \A i, j \in 1..Len(ow) : ow[i] = ow[j] => i = j
    /\ \A i \in 1..Len(ow) : ow[i] > NX /\ st.m[ow[i]].lv
    /\ \A i \in (NX + 1)..Len(st.m) : st.m[i].lv => \E j \in 1..Len(ow) : ow[j] = i
    /\ \A i \in 1..NX : st.m[i].lv
RECURSIVE InBounds(_, _)
InBounds(st, nd) ==
    /\ (nd.k = "d" /\ nd.n > 0) => nd.bo + Span(nd) <= Len(st.m[nd.b].by)
    /\ \A i \in 1..Len(nd.ch) : InBounds(st, nd.ch[i])
MemOK(st) == \A i \in 1..3 : InBounds(st, st.r[i])
=============================================================================
