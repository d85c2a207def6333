-------------------------------- MODULE Text --------------------------------
(* Node to text and back.  Emit gives the abstract JSON value a tree is      *)
(* written as, Read the tree a parser builds from an abstract value; the     *)
(* round trip of a protocol is their composition.                            *)
(* trees: [k, nm, t, ch, v] with v the bytes of each element                 *)
(* abstract values: [k, nm, ch, neg, b]                                      *)
EXTENDS Num
NoTree == [k |-> "e", nm |-> <<>>, t |-> "", ch |-> <<>>, v |-> <<>>]
Leaf(t, v) == [NoTree EXCEPT !.k = "d", !.t = t, !.v = v]
Val(k) == [k |-> k, nm |-> <<>>, ch |-> <<>>, neg |-> FALSE, b |-> <<>>]
Null == Val("null")
\* the characters of a string leaf, up to the terminator
Chars(v) == LET Z == {i \in 1..Len(v) : v[i] = <<0>>} IN [i \in 1..(IF Z = {} THEN Len(v) ELSE MinS(Z) - 1) |-> v[i][1]]
StrLeaf(s) == Leaf("char8_str", [i \in 1..(Len(s) + 1) |-> IF i > Len(s) THEN <<0>> ELSE <<s[i]>>])
\* IEEE specials
ExpAll(t, b) == LET bs == Bits(b) M == IF t = "float32" THEN 23 ELSE 52 IN \A i \in (M+1)..(Len(bs) - 1) : bs[i] = 1
ManZero(t, b) == LET bs == Bits(b) M == IF t = "float32" THEN 23 ELSE 52 IN \A i \in 1..M : bs[i] = 0
IsNan(t, b) == t \in Floats /\ ExpAll(t, b) /\ ~ManZero(t, b)
IsInf(t, b) == t \in Floats /\ ExpAll(t, b) /\ ManZero(t, b)
Neg(b) == b[Len(b)] >= 128
Str(s) == [Val("str") EXCEPT !.b = s]
Nan == <<110, 97, 110>>
Inf == <<105, 110, 102>>
EmitNum(t, b) ==
    IF t \in SInts THEN [Val("int") EXCEPT !.neg = Neg(b), !.b = Conv(t, b, "int64")]
    ELSE IF t \in UInts THEN [Val("int") EXCEPT !.b = Conv(t, b, "uint64")]
    ELSE IF IsNan(t, b) THEN Str(IF Neg(b) THEN <<45>> \o Nan ELSE Nan)
    ELSE IF IsInf(t, b) THEN Str(IF Neg(b) THEN <<45>> \o Inf ELSE Inf)
    ELSE [Val("float") EXCEPT !.b = Conv(t, b, "float64")]
EmitLeaf(n) ==
    IF n.t = "char8_str" THEN Str(Chars(n.v))
    ELSE LET es == [i \in 1..Len(n.v) |-> EmitNum(n.t, n.v[i])] IN
         IF Len(es) = 1 THEN es[1] ELSE [Val("arr") EXCEPT !.ch = es]
RECURSIVE Emit(_)
Emit(n) == CASE n.k = "e" -> Null
             [] n.k = "o" -> [Val("obj") EXCEPT !.nm = n.nm, !.ch = [i \in 1..Len(n.ch) |-> Emit(n.ch[i])]]
             [] n.k = "l" -> [Val("arr") EXCEPT !.ch = [i \in 1..Len(n.ch) |-> Emit(n.ch[i])]]
             [] OTHER -> EmitLeaf(n)
\* nl: the strings of the event that read as numbers, [s, int, i, f]
Like(nl, s) == {r \in {nl[i] : i \in 1..Len(nl)} : r.s = s}
TheLike(nl, s) == CHOOSE r \in Like(nl, s) : TRUE
IsNum(nl, a) == a.k \in {"int", "float"} \/ (a.k = "str" /\ Like(nl, a.b) # {})
\* integers beyond int64 are only those that came from uint64
IntType(a) == IF ~a.neg /\ Neg(a.b) THEN "uint64" ELSE "int64"
AsF64(nl, a) == CASE a.k = "float" -> a.b [] a.k = "str" -> TheLike(nl, a.b).f [] OTHER -> Conv(IntType(a), a.b, "float64")
\* JSON text
HomJ(nl, a) == Len(a.ch) > 0 /\ \A i \in 1..Len(a.ch) : IsNum(nl, a.ch[i])
RECURSIVE ReadJ(_, _)
ReadJ(nl, a) ==
    CASE a.k = "null" -> NoTree
      [] a.k = "obj" -> [NoTree EXCEPT !.k = "o", !.nm = a.nm, !.ch = [i \in 1..Len(a.ch) |-> ReadJ(nl, a.ch[i])]]
      [] a.k = "arr" -> IF ~HomJ(nl, a) THEN [NoTree EXCEPT !.k = "l", !.ch = [i \in 1..Len(a.ch) |-> ReadJ(nl, a.ch[i])]]
                        ELSE IF \A i \in 1..Len(a.ch) : a.ch[i].k = "int" THEN Leaf("int64", [i \in 1..Len(a.ch) |-> a.ch[i].b])
                        ELSE Leaf("float64", [i \in 1..Len(a.ch) |-> AsF64(nl, a.ch[i])])
      [] a.k = "int" -> Leaf(IntType(a), <<a.b>>)
      [] a.k = "float" -> Leaf("float64", <<a.b>>)
      [] a.k = "bool" -> Leaf("uint8", <<a.b>>)
      [] OTHER -> StrLeaf(a.b)
\* YAML text: scalars are untyped, nothing is empty
ScalarY(nl, a) ==
    CASE a.k = "int" -> [t |-> "int64", b |-> a.b]
      [] a.k = "float" -> [t |-> "float64", b |-> a.b]
      [] OTHER -> LET r == TheLike(nl, a.b) IN IF r.int THEN [t |-> "int64", b |-> r.i] ELSE [t |-> "float64", b |-> r.f]
RECURSIVE ReadY(_, _)
ReadY(nl, a) ==
    CASE a.k = "null" -> NoTree
      [] a.k = "obj" -> IF a.ch = <<>> THEN NoTree ELSE [NoTree EXCEPT !.k = "o", !.nm = a.nm, !.ch = [i \in 1..Len(a.ch) |-> ReadY(nl, a.ch[i])]]
      [] a.k = "arr" -> IF a.ch = <<>> THEN NoTree
                        ELSE IF ~HomJ(nl, a) THEN [NoTree EXCEPT !.k = "l", !.ch = [i \in 1..Len(a.ch) |-> ReadY(nl, a.ch[i])]]
                        ELSE LET es == [i \in 1..Len(a.ch) |-> ScalarY(nl, a.ch[i])] IN
                             IF \A i \in 1..Len(es) : es[i].t = "int64" THEN Leaf("int64", [i \in 1..Len(es) |-> es[i].b])
                             ELSE Leaf("float64", [i \in 1..Len(es) |-> Conv(es[i].t, es[i].b, "float64")])
      [] a.k = "str" -> IF a.b = <<>> THEN NoTree
                        ELSE IF Like(nl, a.b) # {} THEN LET s == ScalarY(nl, a) IN Leaf(s.t, <<s.b>>)
                        ELSE StrLeaf(a.b)
      [] OTHER -> LET s == ScalarY(nl, a) IN Leaf(s.t, <<s.b>>)
\* exact protocols keep everything (string leaves up to their terminator, NaNs as a NaN)
RECURSIVE Same(_, _)
Same(a, b) == /\ a.k = b.k /\ a.nm = b.nm /\ a.t = b.t /\ Len(a.ch) = Len(b.ch) /\ Len(a.v) = Len(b.v)
              /\ \A i \in 1..Len(a.ch) : Same(a.ch[i], b.ch[i])
              /\ \A i \in 1..Len(a.v) : a.v[i] = b.v[i] \/ (IsNan(a.t, a.v[i]) /\ IsNan(b.t, b.v[i]))
Expect(e) ==
    CASE e.op = "emit" -> Emit(e.tree)
      [] e.op = "parse" -> IF e.proto = "json" THEN ReadJ(e.nl, e.ast) ELSE ReadY(e.nl, e.ast)
      [] e.proto = "json" -> ReadJ(e.nl, Emit(e.tree))
      [] e.proto = "yaml" -> ReadY(e.nl, Emit(e.tree))
      [] OTHER -> e.tree
Valid(e) ==
    CASE e.op = "emit" -> e.out.v = Expect(e)
      [] e.proto = "conduit_base64_json" -> e.out.v = e.tree
      [] e.proto = "conduit_json_external" -> e.out.v = e.tree /\ e.out.shared
      [] OTHER -> Same(e.out.v, Expect(e))
Show(e) == Expect(e)
=============================================================================
