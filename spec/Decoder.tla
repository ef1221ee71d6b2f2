------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* The JSON decoder of a generated header as a state machine that consumes *)
(* one byte per step: a lexer (modes ws, id, num, str, esc, hex), and a    *)
(* push-down parser that consumes one token at a time, bound to a schema.  *)
(*                                                                         *)
(* A schema is a sequence of messages [f |-> sequence of fields], a field  *)
(* is a record  n: JSON name (bytes), k: kind, r: 1 if repeated, t: 1 if   *)
(* transient, m: message number if k = "msg".  Kinds: i32 i64 u32 u64 f32  *)
(* f64 bool str bytes msg, and sstr (plain text, only as array element).   *)
(*                                                                         *)
(* Values: integer = canonical decimal text, f32/f64 = IEEE bits (bytes,   *)
(* big endian), bool = 0/1, str = bytes, bytes = bytes, msg = sequence of  *)
(* field values.  A singular scalar field is <<>> (absent) or <<value>>,   *)
(* a repeated field is the sequence of its elements, an element of kind    *)
(* str is <<>> or <<value>>.                                               *)
(*                                                                         *)
(* Decimal-to-binary conversion of fractions is uninterpreted: FT is a     *)
(* sequence of records x: number text, d: bits of the nearest f64 (<<>> on *)
(* overflow), f: bits of the nearest f32 (<<>> on overflow).               *)
(***************************************************************************)
EXTENDS Bytes, TLC

E_IGNORE == 1
E_SEPARATOR == 3
E_VALUE == 4
E_OBJECT == 5
E_NAME == 6
E_ARRAY == 7

(* deepest nesting of skipped values the implementation accepts *)
MaxSkip == 1000

IntKinds == {"i32", "i64", "u32", "u64"}

RECURSIVE DefMsg(_, _)
DefMsg(S, m) == [i \in 1..Len(S[m].f) |->
                   IF S[m].f[i].k = "msg" /\ S[m].f[i].r = 0 THEN DefMsg(S, S[m].f[i].m) ELSE <<>>]

(* the element a null stands for *)
DefElem(S, ty) ==
    CASE ty.k \in IntKinds -> <<ZERO>>
      [] ty.k = "f32" -> <<0, 0, 0, 0>>
      [] ty.k = "f64" -> <<0, 0, 0, 0, 0, 0, 0, 0>>
      [] ty.k = "bool" -> 0
      [] ty.k = "msg" -> DefMsg(S, ty.m)
      [] OTHER -> <<>>

(* root: type of the whole text, [k |-> "msg", r |-> 0, m] or [k, r |-> 1, m] *)
DInit(S, FT, root, init) ==
    [S |-> S, FT |-> FT, st |-> "run", mode |-> "ws", buf |-> <<>>, tl |-> 1, tc |-> 1, l |-> 1, c |-> 1,
     lead |-> 0, hx |-> 0, hn |-> 0, ig |-> FALSE, dep |-> 0,
     stk |-> <<[k |-> "root", s |-> "val", ty |-> root, v |-> init]>>,
     res |-> <<>>, code |-> 0, el |-> 0, ec |-> 0]

Err(d, code, tl, tc) == [d EXCEPT !.st = "err", !.code = code, !.el = tl, !.ec = tc]

Push(d, f) == [d EXCEPT !.stk = Append(@, f)]
Top(d) == d.stk[Len(d.stk)]
SetTop(d, f) == [d EXCEPT !.stk[Len(d.stk)] = f]
Pop(d) == [d EXCEPT !.stk = Upto(@, Len(@) - 1)]

(* the value being read in the top frame is complete *)
Complete(d, val) ==
    LET f == Top(d) IN
    CASE f.k = "root" -> [d EXCEPT !.st = "ok", !.res = val]
      [] f.k = "obj"  -> SetTop(d, [f EXCEPT !.v[f.i] = val, !.s = "after"])
      [] f.k = "arr"  -> SetTop(d, [f EXCEPT !.v = Append(@, val), !.s = "after"])

FloatOf(d, k, x) ==
    LET e == CHOOSE r \in Range(d.FT) : r.x = x IN IF k = "f32" THEN e.f ELSE e.d

(* <<>> if the token is not acceptable, otherwise <<value>> *)
Scalar(d, k, t, v) ==
    CASE k \in IntKinds -> IF t # "number" THEN <<>>
                           ELSE LET c == CanonInt(v) IN IF InRange(k, c) THEN <<c>> ELSE <<>>
      [] k \in {"f32", "f64"} -> IF t # "number" THEN <<>>
                                 ELSE LET x == FloatOf(d, k, v) IN IF x = <<>> THEN <<>> ELSE <<x>>
      [] k = "bool" -> IF t = "true" THEN <<1>> ELSE IF t = "false" THEN <<0>> ELSE <<>>
      [] k \in {"str", "sstr"} -> IF t = "string" THEN <<v>> ELSE <<>>
      [] k = "bytes" -> IF t = "string" /\ IsB64(v) THEN <<B64Decode(v)>> ELSE <<>>

ObjFrame(m, v) == [k |-> "obj", s |-> "first", m |-> m, v |-> v, i |-> 0]
ArrFrame(ty, v) == [k |-> "arr", s |-> "first", ty |-> ty, v |-> v]

(* first token of a value of type ty, whole = FALSE for an array element;
   cur is the value already held *)
StartValue(d, ty, whole, cur, t, v, tl, tc) ==
    IF whole /\ ty.r = 1
    THEN IF t = "[" THEN Push(d, ArrFrame(ty, cur)) ELSE Err(d, E_ARRAY, tl, tc)
    ELSE IF ty.k = "msg"
    THEN IF t = "{" THEN Push(d, ObjFrame(ty.m, cur)) ELSE Err(d, E_OBJECT, tl, tc)
    ELSE LET x == Scalar(d, ty.k, t, v)
         IN IF x = <<>> THEN Err(d, IF ty.k = "bytes" THEN E_OBJECT ELSE E_VALUE, tl, tc)
            ELSE Complete(d, IF (whole /\ ty.k # "bytes") \/ ty.k = "str" THEN x ELSE x[1])

(* first token of a skipped value *)
Skip(d, t, tl, tc) ==
    IF d.dep >= MaxSkip THEN Err(d, E_IGNORE, tl, tc)
    ELSE CASE t = "{" -> Push([d EXCEPT !.dep = @ + 1], [k |-> "iobj", s |-> "first"])
           [] t = "[" -> Push([d EXCEPT !.dep = @ + 1], [k |-> "iarr", s |-> "first"])
           [] t \in {"string", "number", "null", "true", "false"} -> [d EXCEPT !.ig = TRUE]
           [] OTHER -> Err(d, E_IGNORE, tl, tc)

FieldIndex(d, m, name) == SelectInSeq(d.S[m].f, LAMBDA x : x.n = name /\ x.t = 0)

TokObj(d, f, t, v, tl, tc) ==
    CASE f.s \in {"first", "key"} ->
            IF t = "string" THEN SetTop(d, [f EXCEPT !.s = "colon", !.i = FieldIndex(d, f.m, v)])
            ELSE IF t = "}" /\ f.s = "first" THEN Complete(Pop(d), f.v)
            ELSE Err(d, E_NAME, tl, tc)
      [] f.s = "colon" -> IF t = ":" THEN SetTop(d, [f EXCEPT !.s = "val"]) ELSE Err(d, E_SEPARATOR, tl, tc)
      [] f.s = "val" ->
            IF f.i = 0 THEN Skip(SetTop(d, [f EXCEPT !.s = "after"]), t, tl, tc)
            ELSE LET ty == d.S[f.m].f[f.i] IN
                 IF t = "null"
                 THEN Skip(SetTop(d, [f EXCEPT !.s = "after",
                                       !.v[f.i] = IF ty.k = "str" /\ ty.r = 0 THEN <<>> ELSE @]), t, tl, tc)
                 ELSE StartValue(d, ty, TRUE, f.v[f.i], t, v, tl, tc)
      [] f.s = "after" ->
            IF t = "," THEN SetTop(d, [f EXCEPT !.s = "key"])
            ELSE IF t = "}" THEN Complete(Pop(d), f.v)
            ELSE Err(d, E_OBJECT, tl, tc)

TokArr(d, f, t, v, tl, tc) ==
    CASE f.s \in {"first", "elem"} ->
            IF t = "]" /\ f.s = "first" THEN Complete(Pop(d), f.v)
            ELSE IF t = "null" THEN Complete(d, DefElem(d.S, f.ty))
            ELSE StartValue(d, f.ty, FALSE, IF f.ty.k = "msg" THEN DefMsg(d.S, f.ty.m) ELSE <<>>, t, v, tl, tc)
      [] f.s = "after" ->
            IF t = "," THEN SetTop(d, [f EXCEPT !.s = "elem"])
            ELSE IF t = "]" THEN Complete(Pop(d), f.v)
            ELSE Err(d, E_ARRAY, tl, tc)

PopSkip(d) == [Pop(d) EXCEPT !.dep = @ - 1]

TokSkipObj(d, f, t, tl, tc) ==
    CASE f.s \in {"first", "key"} ->
            IF t = "string" THEN SetTop(d, [f EXCEPT !.s = "colon"])
            ELSE IF t = "}" /\ f.s = "first" THEN PopSkip(d)
            ELSE Err(d, E_IGNORE, tl, tc)
      [] f.s = "colon" -> IF t = ":" THEN SetTop(d, [f EXCEPT !.s = "val"]) ELSE Err(d, E_IGNORE, tl, tc)
      [] f.s = "val" -> Skip(SetTop(d, [f EXCEPT !.s = "after"]), t, tl, tc)
      [] f.s = "after" ->
            IF t = "," THEN SetTop(d, [f EXCEPT !.s = "key"])
            ELSE IF t = "}" THEN PopSkip(d)
            ELSE Err(d, E_IGNORE, tl, tc)

TokSkipArr(d, f, t, tl, tc) ==
    CASE f.s = "first" -> IF t = "]" THEN PopSkip(d) ELSE Skip(SetTop(d, [f EXCEPT !.s = "after"]), t, tl, tc)
      [] f.s = "elem"  -> Skip(SetTop(d, [f EXCEPT !.s = "after"]), t, tl, tc)
      [] f.s = "after" ->
            IF t = "," THEN SetTop(d, [f EXCEPT !.s = "elem"])
            ELSE IF t = "]" THEN PopSkip(d)
            ELSE Err(d, E_IGNORE, tl, tc)

(* One token: its kind t, its text v (strings and numbers), its position *)
Tok(dd, t, v, tl, tc) ==
    IF dd.ig /\ t \in {"none", "eos"} THEN Err(dd, E_IGNORE, tl, tc)
    ELSE LET d == IF dd.ig THEN [dd EXCEPT !.ig = FALSE] ELSE dd
             f == Top(d)
         IN CASE f.k = "root" -> StartValue(d, f.ty, TRUE, f.v, t, v, tl, tc)
              [] f.k = "obj"  -> TokObj(d, f, t, v, tl, tc)
              [] f.k = "arr"  -> TokArr(d, f, t, v, tl, tc)
              [] f.k = "iobj" -> TokSkipObj(d, f, t, tl, tc)
              [] f.k = "iarr" -> TokSkipArr(d, f, t, tl, tc)

None(d) == Tok(d, "none", <<>>, d.tl, d.tc)

(* the token in d.buf ends before the current byte *)
EndNum(d) == Tok([d EXCEPT !.mode = "ws"], IF IsNumber(d.buf) THEN "number" ELSE "none", d.buf, d.tl, d.tc)

IdTok(s) == CASE s = <<116,114,117,101>> -> "true"
              [] s = <<102,97,108,115,101>> -> "false"
              [] s = <<110,117,108,108>> -> "null"
              [] OTHER -> "none"
EndId(d) == Tok([d EXCEPT !.mode = "ws"], IdTok(d.buf), <<>>, d.tl, d.tc)

LexWs(d, b) ==
    CASE b \in {32, 9, 13, 10} -> d
      [] b = 123 -> Tok(d, "{", <<>>, d.l, d.c)
      [] b = 125 -> Tok(d, "}", <<>>, d.l, d.c)
      [] b = 91  -> Tok(d, "[", <<>>, d.l, d.c)
      [] b = 93  -> Tok(d, "]", <<>>, d.l, d.c)
      [] b = 58  -> Tok(d, ":", <<>>, d.l, d.c)
      [] b = 44  -> Tok(d, ",", <<>>, d.l, d.c)
      [] b = QUOTE -> [d EXCEPT !.mode = "str", !.buf = <<>>, !.lead = 0, !.tl = d.l, !.tc = d.c]
      [] b = MINUS \/ IsDigit(b) -> [d EXCEPT !.mode = "num", !.buf = <<b>>, !.tl = d.l, !.tc = d.c]
      [] IsAlpha(b) -> [d EXCEPT !.mode = "id", !.buf = <<b>>, !.tl = d.l, !.tc = d.c]
      [] OTHER -> Tok(d, "none", <<>>, d.l, d.c)

EscChar(b) == CASE b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12
                [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> 0

LexStr(d, b) ==
    IF d.lead # 0 /\ b # BSLASH THEN None(d)
    ELSE IF b = QUOTE THEN Tok([d EXCEPT !.mode = "ws"], "string", d.buf, d.tl, d.tc)
    ELSE IF b = BSLASH THEN [d EXCEPT !.mode = "esc"]
    ELSE IF b = 0 THEN None(d)
    ELSE [d EXCEPT !.buf = Append(@, b)]

LexEsc(d, b) ==
    IF b = 117 THEN [d EXCEPT !.mode = "hex", !.hx = 0, !.hn = 0]
    ELSE IF d.lead # 0 \/ EscChar(b) = 0 THEN None(d)
    ELSE [d EXCEPT !.mode = "str", !.buf = Append(@, EscChar(b))]

LexHex(d, b) ==
    IF ~IsHex(b) THEN None(d)
    ELSE IF d.hn < 3 THEN [d EXCEPT !.hx = @ * 16 + HexVal(b), !.hn = @ + 1]
    ELSE LET cp == d.hx * 16 + HexVal(b) IN
         IF d.lead # 0
         THEN IF IsTrail(cp) THEN [d EXCEPT !.mode = "str", !.lead = 0, !.buf = @ \o Utf8(Combine(d.lead, cp))]
              ELSE None(d)
         ELSE IF IsLead(cp) THEN [d EXCEPT !.mode = "str", !.lead = cp]
         ELSE IF IsTrail(cp) THEN None(d)
         ELSE [d EXCEPT !.mode = "str", !.buf = @ \o Utf8(cp)]

LexNum(d, b) ==
    IF NumChar(b) THEN [d EXCEPT !.buf = Append(@, b)]
    ELSE LET e == EndNum(d) IN IF e.st = "run" THEN LexWs(e, b) ELSE e

LexId(d, b) ==
    IF IsAlpha(b) THEN [d EXCEPT !.buf = Append(@, b)]
    ELSE LET e == EndId(d) IN IF e.st = "run" THEN LexWs(e, b) ELSE e

(* One byte *)
Feed(d, b) ==
    IF d.st # "run" THEN d
    ELSE LET e == CASE d.mode = "str" -> LexStr(d, b)
                    [] d.mode = "ws"  -> LexWs(d, b)
                    [] d.mode = "num" -> LexNum(d, b)
                    [] d.mode = "id"  -> LexId(d, b)
                    [] d.mode = "esc" -> LexEsc(d, b)
                    [] d.mode = "hex" -> LexHex(d, b)
         IN IF b = LF THEN [e EXCEPT !.l = @ + 1, !.c = 1] ELSE [e EXCEPT !.c = @ + 1]

Eos(d) == IF d.st = "run" THEN Tok(d, "eos", <<>>, d.l, d.c) ELSE d

(* End of the text *)
Finish(d) ==
    IF d.st # "run" THEN d
    ELSE CASE d.mode = "ws"  -> Eos(d)
           [] d.mode = "num" -> Eos(EndNum(d))
           [] d.mode = "id"  -> Eos(EndId(d))
           [] OTHER -> None(d)

FeedAll(d, text) == FoldLeft(Feed, d, text)
Decode(S, FT, root, init, text) == Finish(FeedAll(DInit(S, FT, root, init), text))
=============================================================================
