-------------------------------- MODULE Num --------------------------------
(* Numbers as bytes: exact integer and IEEE-754 conversions, at bit level.   *)
(* An element is its bytes in memory order (little endian).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SInts == {"int8", "int16", "int32", "int64"}
UInts == {"uint8", "uint16", "uint32", "uint64"}
Ints == SInts \cup UInts
Floats == {"float32", "float64"}
W(t) == CASE t \in {"int8", "uint8", "char8_str"} -> 1 [] t \in {"int16", "uint16"} -> 2
          [] t \in {"int32", "uint32", "float32"} -> 4 [] OTHER -> 8
Pow2 == [k \in 0..30 |-> 2^k]
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
\* bit i has weight 2^(i-1)
Bits(b) == [i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div Pow2[(i - 1) % 8]) % 2]
Byte(bs, k) == bs[k] + 2*bs[k+1] + 4*bs[k+2] + 8*bs[k+3] + 16*bs[k+4] + 32*bs[k+5] + 64*bs[k+6] + 128*bs[k+7]
FromBits(bs) == [j \in 1..(Len(bs) \div 8) |-> Byte(bs, 8*(j-1) + 1)]
Ones(bs) == {i \in 1..Len(bs) : bs[i] = 1}
\* two's complement
NegBits(bs) == LET S == Ones(bs) IN
               IF S = {} THEN bs ELSE LET low == MinS(S) IN [i \in 1..Len(bs) |-> IF i <= low THEN bs[i] ELSE 1 - bs[i]]
RECURSIVE SumBits(_, _, _)
SumBits(bs, lo, hi) == IF lo > hi THEN 0 ELSE bs[lo] + 2 * SumBits(bs, lo + 1, hi)
\* a number is (-1)^neg * m * 2^e, m a sequence of bits
Dec(t, b) ==
    LET bs == Bits(b) IN
    IF t \in Ints
    THEN LET neg == t \in SInts /\ bs[Len(bs)] = 1 IN [neg |-> neg, m |-> IF neg THEN NegBits(bs) ELSE bs, e |-> 0]
    ELSE LET M == IF t = "float32" THEN 23 ELSE 52
             bias == IF t = "float32" THEN 127 ELSE 1023
             ex == SumBits(bs, M + 1, Len(bs) - 1)
         IN  [neg |-> bs[Len(bs)] = 1,
              m |-> [i \in 1..(M+1) |-> IF i <= M THEN bs[i] ELSE IF ex = 0 THEN 0 ELSE 1],
              e |-> (IF ex = 0 THEN 1 ELSE ex) - bias - M]
BitAt(n, i) == IF i >= 1 /\ i <= Len(n.m) THEN n.m[i] ELSE 0
EncInt(w, n) == LET mag == [i \in 1..(8*w) |-> BitAt(n, i - n.e)] IN
                FromBits(IF n.neg THEN NegBits(mag) ELSE mag)
IncBits(bs) == LET Z == {i \in 1..Len(bs) : bs[i] = 0} IN
               IF Z = {} THEN [i \in 1..Len(bs) |-> 0]
               ELSE LET z == MinS(Z) IN [i \in 1..Len(bs) |-> IF i < z THEN 0 ELSE IF i = z THEN 1 ELSE bs[i]]
EncFloat(t, n) ==
    LET M == IF t = "float32" THEN 23 ELSE 52
        bias == IF t = "float32" THEN 127 ELSE 1023
        X == IF t = "float32" THEN 8 ELSE 11
        S == Ones(n.m)
        sgn == IF n.neg THEN 1 ELSE 0
    IN  IF S = {} THEN FromBits([i \in 1..(M+X+1) |-> IF i = M+X+1 THEN sgn ELSE 0])
        ELSE LET top == MaxS(S)
                 sh == top - (M + 1)
                 frac == [j \in 1..M |-> BitAt(n, j + sh)]
                 up == sh > 0 /\ n.m[sh] = 1 /\ (BitAt(n, sh + 1) = 1 \/ \E i \in S : i < sh)
                 fr == IF up THEN IncBits(frac) ELSE frac
                 carry == IF up /\ \A j \in 1..M : frac[j] = 1 THEN 1 ELSE 0
                 ex == top - 1 + n.e + bias + carry
             IN  FromBits([i \in 1..(M+X+1) |-> IF i <= M THEN fr[i] ELSE IF i <= M+X THEN (ex \div Pow2[i-M-1]) % 2 ELSE sgn])
\* the bytes of an element of type t after conversion to type u
Conv(t, b, u) == IF t = u THEN b
                 ELSE IF u \in Ints THEN EncInt(W(u), Dec(t, b)) ELSE EncFloat(u, Dec(t, b))
\* 16 * value for moderate values
RECURSIVE WeightSum(_, _, _)
WeightSum(S, e, acc) == IF S = {} THEN acc
                        ELSE LET i == CHOOSE i \in S : TRUE IN WeightSum(S \ {i}, e, acc + (IF i - 1 + e + 4 < 0 THEN 0 ELSE Pow2[i - 1 + e + 4]))
Small(t, b) == LET n == Dec(t, b) v == WeightSum(Ones(n.m), n.e, 0) IN IF n.neg THEN -v ELSE v
\* order
Key(t, b) ==
    LET r == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
        neg == r[1] >= 128
    IN  IF t \in UInts THEN r
        ELSE IF t \in SInts THEN [r EXCEPT ![1] = (@ + 128) % 256]
        ELSE IF neg THEN [i \in 1..Len(r) |-> 255 - r[i]] ELSE [r EXCEPT ![1] = @ + 128]
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
Less(t, a, b) == LexLess(Key(t, a), Key(t, b))
=============================================================================
