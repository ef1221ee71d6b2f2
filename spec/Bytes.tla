------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes are naturals 0..255 and texts are sequences of bytes.  This       *)
(* module defines the value domains shared by the other modules: decimal   *)
(* integers of any size as digit texts, UTF-8, and base64 (RFC 4648).      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

LF == 10
QUOTE == 34
BSLASH == 92
MINUS == 45
PLUS == 43
DOT == 46
ZERO == 48

IsDigit(b) == b >= 48 /\ b <= 57
IsAlpha(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
IsHex(b) == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexVal(b) == IF b <= 57 THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87

Zeros(n) == [i \in 1..n |-> ZERO]

(* Number of leading elements of s that satisfy P *)
PrefixLen(s, P(_)) == LET k == SelectInSeq(s, LAMBDA x : ~P(x)) IN IF k = 0 THEN Len(s) ELSE k - 1
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

IsZero(b) == b = ZERO
StripZeros(s) == From(s, PrefixLen(s, IsZero) + 1)
TrailingZeros(s) == PrefixLen(Reverse(s), IsZero)

(* Comparison of non-negative integers written as digits without leading zeros *)
DigitsLE(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE LET diff == {i \in 1..Len(a) : a[i] # b[i]}
         IN diff = {} \/ LET k == CHOOSE i \in diff : \A j \in diff : i <= j IN a[k] < b[k]

(***************************************************************************)
(* JSON numbers                                                            *)
(***************************************************************************)

NumChar(b) == IsDigit(b) \/ b = DOT \/ b = 101 \/ b = 69 \/ b = PLUS \/ b = MINUS

(* States of the recogniser of RFC 8259 numbers *)
NumStep(q, b) ==
    CASE q = "start" -> IF b = MINUS THEN "minus" ELSE IF b = ZERO THEN "zero" ELSE IF IsDigit(b) THEN "int" ELSE "bad"
      [] q = "minus" -> IF b = ZERO THEN "zero" ELSE IF IsDigit(b) THEN "int" ELSE "bad"
      [] q = "zero"  -> IF b = DOT THEN "dot" ELSE IF b \in {69, 101} THEN "e" ELSE "bad"
      [] q = "int"   -> IF IsDigit(b) THEN "int" ELSE IF b = DOT THEN "dot" ELSE IF b \in {69, 101} THEN "e" ELSE "bad"
      [] q = "dot"   -> IF IsDigit(b) THEN "frac" ELSE "bad"
      [] q = "frac"  -> IF IsDigit(b) THEN "frac" ELSE IF b \in {69, 101} THEN "e" ELSE "bad"
      [] q = "e"     -> IF b \in {PLUS, MINUS} THEN "esign" ELSE IF IsDigit(b) THEN "exp" ELSE "bad"
      [] q = "esign" -> IF IsDigit(b) THEN "exp" ELSE "bad"
      [] q = "exp"   -> IF IsDigit(b) THEN "exp" ELSE "bad"
      [] q = "bad"   -> "bad"

IsNumber(s) == FoldLeft(NumStep, "start", s) \in {"zero", "int", "frac", "exp"}

(* Small decimal, saturated *)
SmallDec(s) == LET t == StripZeros(s) IN
    IF Len(t) > 6 THEN 9999999 ELSE FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, t)

NotExp(b) == b # 69 /\ b # 101
NotDot(b) == b # DOT

(* The value of the number s if it is an integer of at most 40 digits, as a
   text without leading zeros, plus signs and minus zero; otherwise <<>>.  *)
CanonInt(s) ==
    LET neg  == s[1] = MINUS
        body == IF neg THEN Tail(s) ELSE s
        ml   == PrefixLen(body, NotExp)
        mant == Upto(body, ml)
        ex   == From(body, ml + 2)
        exv  == IF ex = <<>> THEN 0
                ELSE IF ex[1] = MINUS THEN 0 - SmallDec(Tail(ex))
                ELSE IF ex[1] = PLUS THEN SmallDec(Tail(ex)) ELSE SmallDec(ex)
        il   == PrefixLen(mant, NotDot)
        frac == From(mant, il + 2)
        digs == StripZeros(Upto(mant, il) \o frac)
        sh   == exv - Len(frac)
        tz   == TrailingZeros(digs)
        res  == IF digs = <<>> THEN <<ZERO>>
                ELSE IF sh < 0 THEN (IF tz < 0 - sh THEN <<>> ELSE Upto(digs, Len(digs) + sh))
                ELSE IF Len(digs) + sh > 40 THEN <<>>
                ELSE digs \o Zeros(sh)
    IN  IF res = <<>> \/ Len(res) > 40 THEN <<>>
        ELSE IF neg /\ res # <<ZERO>> THEN <<MINUS>> \o res ELSE res

MaxI32 == <<50,49,52,55,52,56,51,54,52,55>>                               \* 2147483647
MinI32 == <<50,49,52,55,52,56,51,54,52,56>>                               \* 2147483648
MaxU32 == <<52,50,57,52,57,54,55,50,57,53>>                               \* 4294967295
MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>    \* 9223372036854775807
MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>    \* 9223372036854775808
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>> \* 18446744073709551615

(* Kinds of integers: i32 i64 u32 u64 *)
InRange(k, c) ==
    IF c = <<>> THEN FALSE
    ELSE IF c[1] = MINUS
         THEN CASE k = "i32" -> DigitsLE(Tail(c), MinI32)
                [] k = "i64" -> DigitsLE(Tail(c), MinI64)
                [] OTHER -> FALSE
         ELSE CASE k = "i32" -> DigitsLE(c, MaxI32)
                [] k = "i64" -> DigitsLE(c, MaxI64)
                [] k = "u32" -> DigitsLE(c, MaxU32)
                [] k = "u64" -> DigitsLE(c, MaxU64)

(***************************************************************************)
(* Unicode                                                                 *)
(***************************************************************************)

IsLead(cp)  == cp >= 55296 /\ cp <= 56319
IsTrail(cp) == cp >= 56320 /\ cp <= 57343
Combine(lead, trail) == 65536 + (lead - 55296) * 1024 + (trail - 56320)

Utf8(cp) ==
    IF cp < 128 THEN <<cp>>
    ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
    ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
    ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

(* Acceptor of well-formed UTF-8 (Unicode table 3-7): the state is the set of
   bytes allowed next, as <<low, high, number of further continuation bytes>> *)
Utf8Step(q, b) ==
    IF q[1] = 1 THEN q                                    \* rejected
    ELSE IF q[2] = 0                                       \* at a character start
         THEN CASE b < 128 -> <<0, 0, 0, 0>>
                [] b >= 194 /\ b <= 223 -> <<0, 1, 128, 191>>
                [] b = 224 -> <<0, 2, 160, 191>>
                [] b >= 225 /\ b <= 236 -> <<0, 2, 128, 191>>
                [] b = 237 -> <<0, 2, 128, 159>>
                [] b \in {238, 239} -> <<0, 2, 128, 191>>
                [] b = 240 -> <<0, 3, 144, 191>>
                [] b >= 241 /\ b <= 243 -> <<0, 3, 128, 191>>
                [] b = 244 -> <<0, 3, 128, 143>>
                [] OTHER -> <<1, 0, 0, 0>>
         ELSE IF b >= q[3] /\ b <= q[4] THEN <<0, q[2] - 1, 128, 191>> ELSE <<1, 0, 0, 0>>
ValidUtf8(s) == LET q == FoldLeft(Utf8Step, <<0, 0, 0, 0>>, s) IN q[1] = 0 /\ q[2] = 0

(***************************************************************************)
(* Base64 with padding                                                     *)
(***************************************************************************)

B64Val(b) ==
    CASE b >= 65 /\ b <= 90  -> b - 65
      [] b >= 97 /\ b <= 122 -> b - 71
      [] IsDigit(b)          -> b + 4
      [] b = 43 -> 62
      [] b = 47 -> 63
      [] OTHER -> 64

B64Pad(s) == IF Len(s) > 0 /\ s[Len(s)] = 61
             THEN IF Len(s) > 1 /\ s[Len(s) - 1] = 61 THEN 2 ELSE 1
             ELSE 0

IsB64(s) == /\ Len(s) % 4 = 0
            /\ \A i \in 1..(Len(s) - B64Pad(s)) : B64Val(s[i]) < 64

(* unused low bits of the last symbol are ignored *)
B64Decode(s) ==
    LET n == (Len(s) \div 4) * 3 - B64Pad(s)
        v(i) == LET x == B64Val(s[i]) IN IF x = 64 THEN 0 ELSE x
    IN [k \in 1..n |->
          LET g == ((k - 1) \div 3) * 4
          IN CASE (k - 1) % 3 = 0 -> v(g + 1) * 4 + v(g + 2) \div 16
               [] (k - 1) % 3 = 1 -> (v(g + 2) % 16) * 16 + v(g + 3) \div 4
               [] (k - 1) % 3 = 2 -> (v(g + 3) % 4) * 64 + v(g + 4)]

B64Sym(n) == IF n < 26 THEN n + 65 ELSE IF n < 52 THEN n + 71 ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47

B64Encode(s) ==
    LET n == (Len(s) + 2) \div 3
        at(i) == IF i <= Len(s) THEN s[i] ELSE 0
        pad == (3 - (Len(s) % 3)) % 3
    IN [k \in 1..(4 * n) |->
          LET g == ((k - 1) \div 4) * 3
          IN IF k > 4 * n - pad THEN 61
             ELSE B64Sym(CASE (k - 1) % 4 = 0 -> at(g + 1) \div 4
                           [] (k - 1) % 4 = 1 -> (at(g + 1) % 4) * 16 + at(g + 2) \div 16
                           [] (k - 1) % 4 = 2 -> (at(g + 2) % 16) * 4 + at(g + 3) \div 64
                           [] (k - 1) % 4 = 3 -> at(g + 3) % 64)]
=============================================================================
