------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* What a serialised value is: the relation between a value (see Decoder), *)
(* the parameters ensure_ascii (ea) and serialize_null (sn), and the tree  *)
(* of an acceptable JSON text.  The text itself is not fixed.              *)
(***************************************************************************)
EXTENDS Decoder, Rfc8259

RECURSIVE EmptyVal(_, _, _)
EmptyMsg(S, m, v) == \A i \in 1..Len(v) : EmptyVal(S, S[m].f[i], v[i])
EmptyVal(S, ty, v) == IF ty.k = "msg" /\ ty.r = 0 THEN EmptyMsg(S, ty.m, v) ELSE v = <<>>

NotFinite(k, bits) == bits[1] % 128 = 127 /\ bits[2] >= (IF k = "f32" THEN 128 ELSE 240)

Written(S, m, v, sn, i) == S[m].f[i].t = 0 /\ (sn \/ ~EmptyVal(S, S[m].f[i], v[i]))

(* can the value be written at all? *)
RECURSIVE WritableMsg(_, _, _, _, _)
WritableScalar(S, ty, x, ea, sn) ==
    CASE ty.k \in {"f32", "f64"} -> ~NotFinite(ty.k, x)
      [] ty.k \in {"str", "sstr"} -> ~ea \/ ValidUtf8(x)
      [] OTHER -> TRUE
WritableElem(S, ty, x, ea, sn) ==
    CASE ty.k = "msg" -> WritableMsg(S, ty.m, x, ea, sn)
      [] ty.k = "str" -> x = <<>> \/ WritableScalar(S, ty, x[1], ea, sn)
      [] OTHER -> WritableScalar(S, ty, x, ea, sn)
WritableField(S, ty, v, ea, sn) ==
    IF ty.r = 1 THEN \A i \in 1..Len(v) : WritableElem(S, ty, v[i], ea, sn)
    ELSE CASE ty.k = "msg" -> WritableMsg(S, ty.m, v, ea, sn)
           [] ty.k = "bytes" -> TRUE
           [] OTHER -> v = <<>> \/ WritableScalar(S, ty, v[1], ea, sn)
WritableMsg(S, m, v, ea, sn) ==
    \A i \in 1..Len(v) : Written(S, m, v, sn, i) => WritableField(S, S[m].f[i], v[i], ea, sn)

Writable(S, root, v, ea, sn) ==
    IF root.r = 1 THEN \A i \in 1..Len(v) : WritableElem(S, root, v[i], ea, sn)
    ELSE WritableMsg(S, root.m, v, ea, sn)

(* does the node say exactly this value? *)
FloatBits(FT, k, x) == LET e == CHOOSE r \in Range(FT) : r.x = x IN IF k = "f32" THEN e.f ELSE e.d

RECURSIVE SaysMsg(_, _, _, _, _, _)
SaysScalar(FT, k, x, n) ==
    CASE k \in IntKinds -> n.t = "num" /\ CanonInt(n.v) = x
      [] k \in {"f32", "f64"} -> n.t = "num" /\ FloatBits(FT, k, n.v) = x
      [] k = "bool" -> n.t = (IF x = 1 THEN "true" ELSE "false")
      [] k \in {"str", "sstr"} -> n.t = "str" /\ n.v = x
      [] k = "bytes" -> n.t = "str" /\ n.v = B64Encode(x)
SaysElem(S, FT, ty, x, sn, n) ==
    CASE ty.k = "msg" -> SaysMsg(S, FT, ty.m, x, sn, n)
      [] ty.k = "str" -> IF x = <<>> THEN n.t = "null" ELSE SaysScalar(FT, ty.k, x[1], n)
      [] OTHER -> SaysScalar(FT, ty.k, x, n)
SaysArr(S, FT, ty, v, sn, n) ==
    n.t = "arr" /\ Len(n.v) = Len(v) /\ \A i \in 1..Len(v) : SaysElem(S, FT, ty, v[i], sn, n.v[i])
SaysField(S, FT, ty, v, sn, n) ==
    IF ty.r = 1 THEN SaysArr(S, FT, ty, v, sn, n)
    ELSE CASE ty.k = "msg" -> SaysMsg(S, FT, ty.m, v, sn, n)
           [] ty.k = "bytes" -> SaysScalar(FT, ty.k, v, n)
           [] OTHER -> IF v = <<>> THEN n.t = "null" ELSE SaysScalar(FT, ty.k, v[1], n)
SaysMsg(S, FT, m, v, sn, n) ==
    /\ n.t = "obj"
    /\ LET W == {i \in 1..Len(v) : Written(S, m, v, sn, i)}
       IN /\ Len(n.v) = Cardinality(W)
          /\ \A i \in W : LET j == SelectInSeq(n.v, LAMBDA e : e.n = S[m].f[i].n)
                          IN j > 0 /\ SaysField(S, FT, S[m].f[i], v[i], sn, n.v[j].x)

Says(S, FT, root, v, sn, n) == IF root.r = 1 THEN SaysArr(S, FT, root, v, sn, n) ELSE SaysMsg(S, FT, root.m, v, sn, n)

(* the value without the fields that are not written *)
RECURSIVE Persist(_, _, _)
Persist(S, m, v) ==
    [i \in 1..Len(v) |->
       LET ty == S[m].f[i] IN
       IF ty.t = 1 THEN (IF ty.k = "msg" /\ ty.r = 0 THEN DefMsg(S, ty.m) ELSE <<>>)
       ELSE IF ty.k = "msg"
            THEN IF ty.r = 1 THEN [j \in 1..Len(v[i]) |-> Persist(S, ty.m, v[i][j])] ELSE Persist(S, ty.m, v[i])
            ELSE v[i]]
=============================================================================
