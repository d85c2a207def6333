------------------------------- MODULE Types -------------------------------
(* Data type descriptions: what each maker builds, what each predicate says. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ints == {"int8", "int16", "int32", "int64"}
UInts == {"uint8", "uint16", "uint32", "uint64"}
Floats == {"float32", "float64"}
Holders == {"empty", "object", "list"}
Bytes(t) == CASE t \in {"int8", "uint8", "char8_str"} -> 1 [] t \in {"int16", "uint16"} -> 2 [] t \in {"int32", "uint32", "float32"} -> 4
            [] t \in {"int64", "uint64", "float64"} -> 8 [] OTHER -> 0
\* native C names on this machine (LP64)
CType(c) == CASE c \in {"char", "signed char"} -> "int8" [] c \in {"short", "signed short"} -> "int16" [] c \in {"int", "signed int"} -> "int32"
            [] c \in {"long", "signed long", "long long", "signed long long"} -> "int64"
            [] c = "unsigned char" -> "uint8" [] c = "unsigned short" -> "uint16" [] c = "unsigned int" -> "uint32" [] c \in {"unsigned long", "unsigned long long"} -> "uint64"
            [] c = "float" -> "float32" [] c = "double" -> "float64"
Native(t) == CASE t = "int8" -> {"char", "signed_char"} [] t = "int16" -> {"short", "signed_short"} [] t = "int32" -> {"int", "signed_int"}
             [] t = "int64" -> {"long", "signed_long", "long_long", "signed_long_long", "index_t"}
             [] t = "uint8" -> {"unsigned_char"} [] t = "uint16" -> {"unsigned_short"} [] t = "uint32" -> {"unsigned_int"} [] t = "uint64" -> {"unsigned_long", "unsigned_long_long"}
             [] t = "float32" -> {"float"} [] t = "float64" -> {"double"} [] t = "char8_str" -> {"string"} [] OTHER -> {}
Is(d) == {d.t} \cup Native(d.t)
         \cup (IF d.t \in Ints \cup UInts \cup Floats THEN {"number"} ELSE {})
         \cup (IF d.t \in Floats THEN {"floating_point"} ELSE {})
         \cup (IF d.t \in Ints \cup UInts THEN {"integer"} ELSE {})
         \cup (IF d.t \in Ints THEN {"signed_integer"} ELSE {})
         \cup (IF d.t \in UInts THEN {"unsigned_integer"} ELSE {})
         \cup (IF d.en = "big" THEN {"big_endian"} ELSE {"little_endian"})          \* this machine is little endian
InC(s) == s \ {"index_t", "long_long", "signed_long_long", "unsigned_long_long", "signed_char", "signed_short", "signed_int", "signed_long"}
Plain(t, n) == [t |-> t, n |-> n, o |-> 0, s |-> Bytes(t), w |-> Bytes(t), en |-> "default"]
Empty == [t |-> "empty", n |-> 0, o |-> 0, s |-> 0, w |-> 0, en |-> "default"]
Default(t) == IF t \in {"empty", "char8_str"} THEN Empty ELSE IF t \in Holders THEN [Empty EXCEPT !.t = t] ELSE Plain(t, 1)
\* what the call builds
Made(e) == LET d == e.d IN
  CASE e.via = "make" -> LET p == Plain(d.t, IF e.k = 0 THEN 1 ELSE d.n) IN
                         [p EXCEPT !.o = IF e.k >= 2 THEN d.o ELSE 0, !.s = IF e.k >= 3 THEN d.s ELSE p.s, !.w = IF e.k >= 4 THEN d.w ELSE p.w, !.en = IF e.k >= 5 THEN d.en ELSE "default"]
    [] e.via = "short" -> Plain(d.t, IF e.k % 2 = 1 THEN d.n ELSE 0)
    [] e.via \in {"default", "default_name"} -> Default(d.t)
    [] OTHER -> d
Strided(d) == IF d.n < 1 THEN 0 ELSE d.s * (d.n - 1) + d.w
Compact(d) == d.t \notin Holders /\ d.o + Strided(d) = Bytes(d.t) * d.n
ExpType(e) == LET d == Made(e) IN
  [t |-> d.t, n |-> d.n, o |-> d.o, s |-> d.s, w |-> d.w, en |-> d.en, csame |-> TRUE, strided |-> Strided(d), spanned |-> d.o + Strided(d), bytes |-> Bytes(d.t) * d.n,
   compact |-> Compact(d), at |-> d.o + d.s * e.i, match |-> d.en # "big", compat |-> d.t = e.e.t /\ d.w = e.e.w /\ d.n >= e.e.n, eq |-> d = e.e, z |-> [Plain(d.t, d.n) EXCEPT !.en = d.en], text |-> TRUE, back |-> IF d.t \in Holders THEN [e.out.back EXCEPT !.t = d.t] ELSE IF d.en = "default" THEN [d EXCEPT !.en = "little"] ELSE d, reset |-> Empty]
Exp(e) == CASE e.op = "name" -> [t |-> e.t, c |-> CType(e.c), bytes |-> Bytes(e.t), nbytes |-> Bytes(e.t), en |-> e.en, machine |-> TRUE, ix |-> TRUE]
            [] e.op = "swap" -> [v |-> [i \in 1..Len(e.v) |-> e.v[Len(e.v) + 1 - i]], guard |-> TRUE]
            [] e.op = "dtype" -> ExpType(e)
Range(s) == {s[i] : i \in 1..Len(s)}
Wrong(e) == {f \in DOMAIN Exp(e) : e.out[f] # Exp(e)[f]}
            \cup (IF e.op # "dtype" THEN {} ELSE {f \in {"is", "cis"} : Range(e.out[f]) # (IF f = "is" THEN Is(Made(e)) ELSE InC(Is(Made(e))))})
Valid(e) == Wrong(e) = {}
Show(e) == [op |-> e.op, wrong |-> Wrong(e), expected |-> [f \in Wrong(e) \cap DOMAIN Exp(e) |-> Exp(e)[f]]]
=============================================================================
