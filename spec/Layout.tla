------------------------------- MODULE Layout -------------------------------
(* Schemas: how descriptions resolve to memory layouts, and how trees bound  *)
(* to memory read, pack, serialize and report their extent.                  *)
(* Description: [k, nm, ch, t, n, o, s, en, eo, es]; k: o(bject) l(ist)      *)
(* d(ata) e(mpty) r(epeat n times); eo/es: offset / stride given.            *)
EXTENDS Num
N0 == [k |-> "e", nm |-> <<>>, ch |-> <<>>, t |-> "", n |-> 0, o |-> 0, s |-> 0, en |-> ""]
Kids(x) == x.k \in {"o", "l"}
\* extent of n elements
Ext(x) == IF x.n < 1 THEN 0 ELSE x.s * (x.n - 1) + W(x.t)
RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumQ(Tail(q))
RECURSIVE Size(_), Compact(_), Span(_)
Size(x) == CASE Kids(x) -> SumQ([i \in 1..Len(x.ch) |-> Size(x.ch[i])]) [] x.k = "d" -> Ext(x) [] OTHER -> 0
Compact(x) == CASE Kids(x) -> SumQ([i \in 1..Len(x.ch) |-> Compact(x.ch[i])]) [] x.k = "d" -> x.n * W(x.t) [] OTHER -> 0
Span(x) == CASE Kids(x) -> IF x.ch = <<>> THEN 0 ELSE MaxS({Span(x.ch[i]) : i \in 1..Len(x.ch)})
             [] x.k = "d" -> x.o + Ext(x) [] OTHER -> 0
\* offsets that are not given follow the strided data before them
RECURSIVE Res(_, _), ResSeq(_, _)
ResSeq(q, off) == IF q = <<>> THEN <<>> ELSE LET c == Res(Head(q), off) IN <<c>> \o ResSeq(Tail(q), off + Size(c))
Res(x, off) ==
    CASE x.k = "o" -> [N0 EXCEPT !.k = "o", !.nm = x.nm, !.ch = ResSeq(x.ch, off)]
      [] x.k = "l" -> [N0 EXCEPT !.k = "l", !.ch = ResSeq(x.ch, off)]
      [] x.k = "r" -> [N0 EXCEPT !.k = "l", !.ch = ResSeq([i \in 1..x.n |-> x.ch[1]], off)]
      [] x.k = "d" -> [N0 EXCEPT !.k = "d", !.t = x.t, !.n = x.n, !.o = IF x.eo THEN x.o ELSE off,
                                 !.s = IF x.es THEN x.s ELSE W(x.t), !.en = x.en]
      [] OTHER -> N0
RECURSIVE CompactTree(_, _), CompactSeq(_, _)
CompactSeq(q, off) == IF q = <<>> THEN <<>> ELSE <<CompactTree(Head(q), off)>> \o CompactSeq(Tail(q), off + Compact(Head(q)))
CompactTree(x, off) == CASE Kids(x) -> [x EXCEPT !.ch = CompactSeq(x.ch, off)]
                         [] x.k = "d" -> [x EXCEPT !.o = off, !.s = W(x.t)] [] OTHER -> x
\* the text form names the machine's byte order
RECURSIVE Endian(_)
Endian(x) == CASE Kids(x) -> [x EXCEPT !.ch = [i \in 1..Len(x.ch) |-> Endian(x.ch[i])]]
               [] x.k = "d" /\ x.en = "default" -> [x EXCEPT !.en = "little"] [] OTHER -> x
\* values of a tree bound to memory
RECURSIVE Vals(_, _), Bytes(_, _)
Elem(x, mem, i) == SubSeq(mem, x.o + x.s*(i-1) + 1, x.o + x.s*(i-1) + W(x.t))
Vals(x, mem) == [k |-> x.k, nm |-> x.nm, t |-> x.t,
                 ch |-> [i \in 1..Len(x.ch) |-> Vals(x.ch[i], mem)],
                 v |-> IF x.k = "d" THEN [i \in 1..x.n |-> Elem(x, mem, i)] ELSE <<>>]
RECURSIVE CatQ(_)
CatQ(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o CatQ(Tail(q))
Bytes(x, mem) == CASE Kids(x) -> CatQ([i \in 1..Len(x.ch) |-> Bytes(x.ch[i], mem)])
                   [] x.k = "d" -> CatQ([i \in 1..x.n |-> Elem(x, mem, i)]) [] OTHER -> <<>>
\* do the leaves follow one another in memory, from start (-1: anywhere)?
RECURSIVE CW(_, _), CWSeq(_, _)
CWSeq(q, st) == IF q = <<>> THEN [ok |-> TRUE, end |-> st]
                ELSE LET r == CW(Head(q), st) IN IF r.ok THEN CWSeq(Tail(q), r.end) ELSE r
CW(x, st) == CASE Kids(x) -> CWSeq(x.ch, st)
               [] x.k = "d" -> [ok |-> st = -1 \/ st = x.o, end |-> x.o + Ext(x)]
               [] OTHER -> [ok |-> TRUE, end |-> st]
RECURSIVE First(_)
First(x) == CASE Kids(x) -> LET S == {i \in 1..Len(x.ch) : First(x.ch[i]) # -1} IN IF S = {} THEN -1 ELSE First(x.ch[MinS(S)])
              [] x.k = "d" -> x.o [] OTHER -> -1
Lay(x, mem, probes) ==
    [strided |-> Size(x), compact |-> Compact(x), is_compact |-> Size(x) = Compact(x),
     contig |-> CW(x, -1).ok, ptr |-> IF CW(x, -1).ok THEN First(x) ELSE -1,
     probes |-> [i \in 1..Len(probes) |-> CW(x, probes[i]).ok],
     ser |-> Bytes(x, mem),
     ctree |-> CompactTree(x, 0), cvals |-> Vals(x, mem), ccontig |-> TRUE, calloc |-> Compact(x)]
Flip(mem) == [i \in 1..Len(mem) |-> 255 - mem[i]]
Ext1 == {"ext", "extc", "gejson", "geyaml"}
Expect(e) ==
    LET x == Res(e.tree, 0) IN
    CASE e.op = "schema" -> [schema |-> x, rt |-> Endian(x), rt2 |-> Endian(x), same |-> TRUE, rty |-> Endian(x), strided |-> Size(x), compact |-> Compact(x),
                             is_compact |-> Size(x) = Compact(x), ctree |-> CompactTree(x, 0)]
      [] e.op = "bind" -> [v |-> Vals(x, e.mem), v2 |-> Vals(x, IF e.via \in Ext1 THEN Flip(e.mem) ELSE e.mem),
                           lay |-> IF e.via \in {"gjson", "gyaml"} THEN <<>> ELSE <<Lay(x, e.mem, e.probes)>>]
      [] e.op = "file" -> [v |-> Vals(x, e.mem), owned |-> Compact(x), rowned |-> TRUE, file |-> Bytes(x, e.mem), raw |-> Vals(x, e.mem),
                           mm |-> Vals(x, e.mem), mm2 |-> Vals(x, Flip(e.mem)), mmb |-> Compact(x)]
Valid(e) == e.out = Expect(e)
Show(e) == Expect(e)
=============================================================================
