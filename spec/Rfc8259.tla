------------------------------ MODULE Rfc8259 ------------------------------
(***************************************************************************)
(* A strict reader of JSON texts (RFC 8259), independent of Decoder: a     *)
(* push-down machine over bytes that builds the tree of the whole text.    *)
(* Nodes are [t |-> kind, v |-> content]; the members of an object are     *)
(* [n |-> name, x |-> node] in textual order.                              *)
(***************************************************************************)
EXTENDS Bytes

RInit == [st |-> "run", mode |-> "ws", buf |-> <<>>, lead |-> 0, hx |-> 0, hn |-> 0, q |-> "start",
          stk |-> <<[k |-> "top", s |-> "val", v |-> <<>>, n |-> <<>>]>>, ascii |-> TRUE]

RBad(r) == [r EXCEPT !.st = "bad"]
RTop(r) == r.stk[Len(r.stk)]

(* a value is complete in the top frame *)
RVal(r, node) ==
    LET f == RTop(r) IN
    CASE f.k = "top" /\ f.s = "val" ->
           [r EXCEPT !.mode = "ws", !.stk[Len(r.stk)] = [f EXCEPT !.s = "end", !.v = <<node>>]]
      [] f.k = "obj" /\ f.s = "val" ->
           [r EXCEPT !.mode = "ws", !.stk[Len(r.stk)] = [f EXCEPT !.s = "after", !.v = Append(@, [n |-> f.n, x |-> node])]]
      [] f.k = "arr" /\ f.s \in {"first", "elem"} ->
           [r EXCEPT !.mode = "ws", !.stk[Len(r.stk)] = [f EXCEPT !.s = "after", !.v = Append(@, node)]]
      [] OTHER -> RBad(r)

RStr(r) ==
    LET f == RTop(r) IN
    IF f.k = "obj" /\ f.s \in {"first", "key"}
    THEN [r EXCEPT !.mode = "ws", !.stk[Len(r.stk)] = [f EXCEPT !.s = "colon", !.n = r.buf]]
    ELSE RVal(r, [t |-> "str", v |-> r.buf])

RCanStart(r) == LET f == RTop(r) IN (f.k \in {"top", "obj"} /\ f.s = "val") \/ (f.k = "arr" /\ f.s \in {"first", "elem"})

RPopVal(r, node) == RVal([r EXCEPT !.stk = Upto(@, Len(@) - 1)], node)

RWs(r, b) ==
    LET f == RTop(r) IN
    CASE b \in {32, 9, 10, 13} -> r
      [] b = QUOTE -> IF RCanStart(r) \/ (f.k = "obj" /\ f.s \in {"first", "key"})
                      THEN [r EXCEPT !.mode = "str", !.buf = <<>>, !.lead = 0] ELSE RBad(r)
      [] b = MINUS \/ IsDigit(b) -> IF RCanStart(r) THEN [r EXCEPT !.mode = "num", !.buf = <<b>>, !.q = NumStep("start", b)] ELSE RBad(r)
      [] IsAlpha(b) -> IF RCanStart(r) THEN [r EXCEPT !.mode = "id", !.buf = <<b>>] ELSE RBad(r)
      [] b = 123 -> IF RCanStart(r) THEN [r EXCEPT !.stk = Append(@, [k |-> "obj", s |-> "first", v |-> <<>>, n |-> <<>>])] ELSE RBad(r)
      [] b = 91  -> IF RCanStart(r) THEN [r EXCEPT !.stk = Append(@, [k |-> "arr", s |-> "first", v |-> <<>>, n |-> <<>>])] ELSE RBad(r)
      [] b = 125 -> IF f.k = "obj" /\ f.s \in {"first", "after"} THEN RPopVal(r, [t |-> "obj", v |-> f.v]) ELSE RBad(r)
      [] b = 93  -> IF f.k = "arr" /\ f.s \in {"first", "after"} THEN RPopVal(r, [t |-> "arr", v |-> f.v]) ELSE RBad(r)
      [] b = 58  -> IF f.k = "obj" /\ f.s = "colon" THEN [r EXCEPT !.stk[Len(r.stk)].s = "val"] ELSE RBad(r)
      [] b = 44  -> IF f.k = "obj" /\ f.s = "after" THEN [r EXCEPT !.stk[Len(r.stk)].s = "key"]
                    ELSE IF f.k = "arr" /\ f.s = "after" THEN [r EXCEPT !.stk[Len(r.stk)].s = "elem"] ELSE RBad(r)
      [] OTHER -> RBad(r)

REsc(b) == CASE b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12
             [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> 0

RStrStep(r, b) ==
    CASE b = BSLASH -> [r EXCEPT !.mode = "esc"]
      [] r.lead # 0 -> RBad(r)
      [] b = QUOTE -> RStr(r)
      [] b < 32 -> RBad(r)
      [] OTHER -> [r EXCEPT !.buf = Append(@, b)]

REscStep(r, b) ==
    IF b = 117 THEN [r EXCEPT !.mode = "hex", !.hx = 0, !.hn = 0]
    ELSE IF r.lead # 0 \/ REsc(b) = 0 THEN RBad(r)
    ELSE [r EXCEPT !.mode = "str", !.buf = Append(@, REsc(b))]

RHexStep(r, b) ==
    IF ~IsHex(b) THEN RBad(r)
    ELSE IF r.hn < 3 THEN [r EXCEPT !.hx = @ * 16 + HexVal(b), !.hn = @ + 1]
    ELSE LET cp == r.hx * 16 + HexVal(b) IN
         CASE r.lead # 0 /\ IsTrail(cp) -> [r EXCEPT !.mode = "str", !.lead = 0, !.buf = @ \o Utf8(Combine(r.lead, cp))]
           [] r.lead = 0 /\ IsLead(cp) -> [r EXCEPT !.mode = "str", !.lead = cp]
           [] r.lead = 0 /\ ~IsTrail(cp) -> [r EXCEPT !.mode = "str", !.buf = @ \o Utf8(cp)]
           [] OTHER -> RBad(r)

REndNum(r) == IF r.q \in {"zero", "int", "frac", "exp"} THEN RVal(r, [t |-> "num", v |-> r.buf]) ELSE RBad(r)
REndId(r) ==
    CASE r.buf = <<116,114,117,101>> -> RVal(r, [t |-> "true", v |-> <<>>])
      [] r.buf = <<102,97,108,115,101>> -> RVal(r, [t |-> "false", v |-> <<>>])
      [] r.buf = <<110,117,108,108>> -> RVal(r, [t |-> "null", v |-> <<>>])
      [] OTHER -> RBad(r)

RStep(r, b) ==
    CASE r.mode = "str" -> RStrStep(r, b)
      [] r.mode = "ws" -> RWs(r, b)
      [] r.mode = "num" -> IF NumChar(b) THEN [r EXCEPT !.buf = Append(@, b), !.q = NumStep(@, b)]
                           ELSE LET e == REndNum(r) IN IF e.st = "run" THEN RWs(e, b) ELSE e
      [] r.mode = "id" -> IF IsAlpha(b) THEN [r EXCEPT !.buf = Append(@, b)]
                          ELSE LET e == REndId(r) IN IF e.st = "run" THEN RWs(e, b) ELSE e
      [] r.mode = "esc" -> REscStep(r, b)
      [] r.mode = "hex" -> RHexStep(r, b)

RFeed(r, b) == IF r.st # "run" THEN r
               ELSE IF b >= 128 /\ r.ascii THEN RStep([r EXCEPT !.ascii = FALSE], b) ELSE RStep(r, b)

(* r.st = "ok" if the whole text is one JSON value, r.v is its tree *)
RFinish(r) ==
    LET e == IF r.st # "run" THEN r
             ELSE CASE r.mode = "ws" -> r
                    [] r.mode = "num" -> REndNum(r)
                    [] r.mode = "id" -> REndId(r)
                    [] OTHER -> RBad(r)
    IN IF e.st = "run" /\ Len(e.stk) = 1 /\ e.stk[1].s = "end"
       THEN [st |-> "ok", ascii |-> e.ascii, v |-> e.stk[1].v[1]]
       ELSE [st |-> "bad", ascii |-> e.ascii, v |-> [t |-> "none", v |-> <<>>]]

ReadJson(text) == RFinish(FoldLeft(RFeed, RInit, text))
=============================================================================
