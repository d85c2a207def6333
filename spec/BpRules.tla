------------------------------ MODULE BpRules ------------------------------
(* Which trees are multi-component and multi-level arrays.                   *)
EXTENDS Tree, Integers, FiniteSets
Numbers == {"int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64"}
IntTypes == Numbers \ {"float32", "float64"}
Num(t) == t.k = "d" /\ t.t \in Numbers
Cnt(t) == Len(t.v)
Box(t) == t.k \in {"o", "l"}
(* mcarray: all components numeric and equally long                          *)
McOk(t) == /\ Box(t) /\ \A i \in 1..Len(t.ch) : Num(t.ch[i])
           /\ \A i, j \in 1..Len(t.ch) : Cnt(t.ch[i]) = Cnt(t.ch[j])
(* mlarray: same names at every depth, numeric leaves                        *)
RECURSIVE Depth(_), At(_, _)
Depth(t) == IF t.ch = <<>> THEN 0 ELSE LET d == [i \in 1..Len(t.ch) |-> Depth(t.ch[i])] IN 1 + CHOOSE m \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : d[i] <= m
At(t, d) == IF d = 0 THEN {t} ELSE UNION {At(t.ch[i], d - 1) : i \in 1..Len(t.ch)}
Names(t) == {t.nm[i] : i \in 1..Len(t.nm)}
MlOk(t, lo, hi, uni) == /\ t.k # "e"
    /\ LET m == Depth(t) IN
       /\ \A d \in 0..(m - 1) : \A a, b \in At(t, d) : Names(a) = Names(b)
       /\ \A a \in At(t, m) : Num(a)
       /\ uni => \A a, b \in At(t, m) : Cnt(a) = Cnt(b)
       /\ lo <= m /\ m <= hi
Meta == {"sizes", "offsets", "indices"}
=============================================================================
