------------------------------- MODULE Proto -------------------------------
(***************************************************************************)
(* The schema compiler as a machine fed one byte at a time: lexical        *)
(* analysis (positions included), grammar of the supported proto3 subset,  *)
(* and at the end of the input the resolution of the type names and the    *)
(* conditions on the whole schema.  The result is the declared messages,   *)
(* or the place of the first token that no valid schema could have.        *)
(***************************************************************************)
EXTENDS Bytes

(* Tokens are pairs of a code and, when it has one, a value. *)
Words == {
    <<"message", <<109, 101, 115, 115, 97, 103, 101>>>>,
    <<"repeated", <<114, 101, 112, 101, 97, 116, 101, 100>>>>,
    <<"string", <<115, 116, 114, 105, 110, 103>>>>,
    <<"enum", <<101, 110, 117, 109>>>>,
    <<"double", <<100, 111, 117, 98, 108, 101>>>>,
    <<"float", <<102, 108, 111, 97, 116>>>>,
    <<"bool", <<98, 111, 111, 108>>>>,
    <<"int32", <<105, 110, 116, 51, 50>>>>,
    <<"int64", <<105, 110, 116, 54, 52>>>>,
    <<"uint32", <<117, 105, 110, 116, 51, 50>>>>,
    <<"uint64", <<117, 105, 110, 116, 54, 52>>>>,
    <<"sint32", <<115, 105, 110, 116, 51, 50>>>>,
    <<"sint64", <<115, 105, 110, 116, 54, 52>>>>,
    <<"fixed32", <<102, 105, 120, 101, 100, 51, 50>>>>,
    <<"fixed64", <<102, 105, 120, 101, 100, 54, 52>>>>,
    <<"sfixed32", <<115, 102, 105, 120, 101, 100, 51, 50>>>>,
    <<"sfixed64", <<115, 102, 105, 120, 101, 100, 54, 52>>>>,
    <<"bytes", <<98, 121, 116, 101, 115>>>>,
    <<"package", <<112, 97, 99, 107, 97, 103, 101>>>>,
    <<"syntax", <<115, 121, 110, 116, 97, 120>>>>,
    <<"map", <<109, 97, 112>>>>,
    <<"option", <<111, 112, 116, 105, 111, 110>>>>,
    <<"true", <<116, 114, 117, 101>>>>,
    <<"false", <<102, 97, 108, 115, 101>>>>,
    <<"optional", <<111, 112, 116, 105, 111, 110, 97, 108>>>>}
Texts == {w[2] : w \in Words}
Keyword == [t \in Texts |-> (CHOOSE w \in Words : w[2] = t)[1]]
Scalars == {"string", "double", "float", "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bytes"}
Proto3Version == <<112, 114, 111, 116, 111, 51>>
O_transient == <<116, 114, 97, 110, 115, 105, 101, 110, 116>>
O_name == <<110, 97, 109, 101>>
O_number_names == <<110, 117, 109, 98, 101, 114, 95, 110, 97, 109, 101, 115>>
O_obfuscate_strings == <<111, 98, 102, 117, 115, 99, 97, 116, 101, 95, 115, 116, 114, 105, 110, 103, 115>>
O_cpp_use_lists == <<99, 112, 112, 95, 117, 115, 101, 95, 108, 105, 115, 116, 115>>

IsLetter(b) == IsAlpha(b) \/ b = 95
Symbol == [b \in {61, 123, 125, 59, 44, 60, 62, 91, 93} |->
             CASE b = 61 -> "=" [] b = 123 -> "{" [] b = 125 -> "}" [] b = 59 -> ";" [] b = 44 -> ","
               [] b = 60 -> "<" [] b = 62 -> ">" [] b = 91 -> "[" [] b = 93 -> "]"]

NoField == [n |-> <<>>, i |-> <<>>, t |-> <<>>, q |-> 0, r |-> 0, o |-> <<>>]
NoMsg == [n |-> <<>>, p |-> <<>>, f |-> <<>>, o |-> <<>>]

(* l, c: line and column of the last byte; tl, tc: where the token started *)
PInit == [st |-> "run", q |-> "top", mode |-> "skip", buf |-> <<>>, tl |-> 1, tc |-> 0, l |-> 1, c |-> 0, lf |-> FALSE,
          pkg |-> <<>>, msgs |-> <<>>, opts |-> <<>>, m |-> NoMsg, f |-> NoField, on |-> <<>>, owner |-> "file",
          sl |-> 0, sc |-> 0, ver |-> TRUE, odd |-> FALSE, why |-> "", el |-> 0, ec |-> 0, hl |-> 0, hc |-> 0]

Fail(p, why, l, c, hl, hc) == [p EXCEPT !.st = "err", !.why = why, !.el = l, !.ec = c, !.hl = hl, !.hc = hc]
Here(p, why) == Fail(p, why, p.tl, p.tc, p.tl, p.tc)

Qualified(pkg, n) == IF pkg = <<>> THEN n ELSE pkg \o <<DOT>> \o n
Declared(p) == {Qualified(p.msgs[i].p, p.msgs[i].n) : i \in 1..Len(p.msgs)}

(* the last of the options with the same name stays, but nothing is promised *)
HasOption(o, n) == \E i \in 1..Len(o) : o[i][1] = n
AddOption(o, e) == Append(SelectSeq(o, LAMBDA x : x[1] # e[1]), e)

(* Field numbers: 1..536870911 but 19000..19999 *)
NumberOk(d) == LET s == StripZeros(d)
               IN s # <<>> /\ DigitsLE(s, <<53, 51, 54, 56, 55, 48, 57, 49, 49>>)
                  /\ (DigitsLE(s, <<49, 56, 57, 57, 57>>) \/ ~DigitsLE(s, <<49, 57, 57, 57, 57>>))

(***************************************************************************)
(* Grammar: what a token (code k, value v) does in each state              *)
(***************************************************************************)

Go(p, q) == [p EXCEPT !.q = q]
Start(p) == [p EXCEPT !.sl = p.tl, !.sc = p.tc]     (* first token of a declaration *)
Names3 == {"NAME", "message", "package"}

FieldType(p, k, v) ==
    IF k \in Scalars THEN [Go(p, "f-name") EXCEPT !.f.t = v]
    ELSE IF k \in {"NAME", "QNAME"} THEN [Go(p, "f-name") EXCEPT !.f.t = v, !.f.q = 1]
    ELSE Here(p, "syntax")

OptionKind(k) == CASE k \in {"true", "false"} -> "boolean" [] k \in {"NAME", "QNAME"} -> "identifier"
                   [] k = "INTEGER" -> "integer" [] k = "STRING" -> "string" [] OTHER -> "none"

OptionIn(p, e) ==
    CASE p.owner = "file" -> [p EXCEPT !.opts = AddOption(@, e), !.odd = @ \/ HasOption(p.opts, e[1])]
      [] p.owner = "msg" -> [p EXCEPT !.m.o = AddOption(@, e), !.odd = @ \/ HasOption(p.m.o, e[1])]
      [] p.owner = "field" -> [p EXCEPT !.f.o = AddOption(@, e), !.odd = @ \/ HasOption(p.f.o, e[1])]

EndField(p) ==
    IF \E i \in 1..Len(p.m.f) : p.m.f[i].n = p.f.n \/ p.m.f[i].i = p.f.i THEN Fail(p, "repeated", p.sl, p.sc, p.tl, p.tc)
    ELSE [Go(p, "body") EXCEPT !.m.f = Append(@, p.f), !.f = NoField]

Token(p, k, v) ==
    CASE p.q = "top" -> (CASE k = "message" -> Go(Start(p), "m-name")
                           [] k = "package" -> Go(p, "p-name")
                           [] k = "syntax" -> Go(p, "s-eq")
                           [] k = "option" -> [Go(p, "o-name") EXCEPT !.owner = "file"]
                           [] k = "EOF" -> [p EXCEPT !.st = "end"]
                           [] OTHER -> Here(p, "syntax"))
      [] p.q = "s-eq" -> IF k = "=" THEN Go(p, "s-text") ELSE Here(p, "syntax")
      [] p.q = "s-text" -> IF k = "STRING" THEN [Go(Start(p), "s-end") EXCEPT !.ver = (v = Proto3Version)] ELSE Here(p, "syntax")
      [] p.q = "s-end" -> IF k # ";" THEN Here(p, "syntax") ELSE IF p.ver THEN Go(p, "top") ELSE Fail(p, "version", p.sl, p.sc, p.tl, p.tc)
      [] p.q = "p-name" -> IF k \in {"NAME", "QNAME"} THEN [Go(p, "p-end") EXCEPT !.on = v] ELSE Here(p, "syntax")
      [] p.q = "p-end" -> IF k = ";" THEN [Go(p, "top") EXCEPT !.pkg = p.on] ELSE Here(p, "syntax")
      [] p.q = "m-name" -> IF k \notin Names3 THEN Here(p, "syntax")
                           ELSE IF Qualified(p.pkg, v) \in Declared(p) THEN Fail(p, "repeated", p.sl, p.sc, p.tl, p.tc)
                           ELSE [Go(p, "m-begin") EXCEPT !.m = [NoMsg EXCEPT !.n = v, !.p = p.pkg]]
      [] p.q = "m-begin" -> IF k = "{" THEN Go(p, "body") ELSE Here(p, "syntax")
      [] p.q = "body" -> (CASE k = "}" -> [Go(p, "top") EXCEPT !.msgs = Append(@, p.m), !.m = NoMsg]
                            [] k = "option" -> [Go(p, "o-name") EXCEPT !.owner = "msg"]
                            [] k = "repeated" -> [Go(Start(p), "f-type") EXCEPT !.f.r = 1]
                            [] k = "optional" -> [Go(Start(p), "f-type") EXCEPT !.f.r = 2]
                            [] OTHER -> FieldType(Start(p), k, v))
      [] p.q = "f-type" -> FieldType(p, k, v)
      [] p.q = "f-name" -> IF k \in Names3 THEN [Go(p, "f-eq") EXCEPT !.f.n = v] ELSE Here(p, "syntax")
      [] p.q = "f-eq" -> IF k = "=" THEN Go(p, "f-num") ELSE Here(p, "syntax")
      [] p.q = "f-num" -> IF k # "INTEGER" THEN Here(p, "syntax")
                          ELSE IF ~NumberOk(v) THEN Here(p, "number")
                          ELSE [Go(p, "f-rest") EXCEPT !.f.i = StripZeros(v), !.odd = @ \/ v[1] = ZERO]
      [] p.q = "f-rest" -> IF k = "[" THEN [Go(p, "o-name") EXCEPT !.owner = "field"] ELSE IF k = ";" THEN EndField(p) ELSE Here(p, "syntax")
      [] p.q = "f-end" -> IF k = ";" THEN EndField(p) ELSE Here(p, "syntax")
      [] p.q = "o-name" -> IF k \in {"NAME", "QNAME"} THEN [Go(p, "o-eq") EXCEPT !.on = v] ELSE Here(p, "syntax")
      [] p.q = "o-eq" -> IF k = "=" THEN Go(p, "o-value") ELSE Here(p, "syntax")
      [] p.q = "o-value" -> IF OptionKind(k) = "none" THEN Here(p, "syntax") ELSE OptionIn(Go(p, "o-end"), <<p.on, OptionKind(k), v>>)
      [] p.q = "o-end" -> IF p.owner = "field"
                          THEN (IF k = "," THEN Go(p, "o-name") ELSE IF k = "]" THEN Go(p, "f-end") ELSE Here(p, "syntax"))
                          ELSE (IF k = ";" THEN Go(p, IF p.owner = "file" THEN "top" ELSE "body") ELSE Here(p, "syntax"))

(***************************************************************************)
(* Lexical analysis                                                        *)
(***************************************************************************)

EndWord(p) == LET k == IF p.buf \in Texts THEN Keyword[p.buf] ELSE IF DOT \in Range(p.buf) THEN "QNAME" ELSE "NAME"
              IN [Token(p, k, p.buf) EXCEPT !.mode = "skip", !.buf = <<>>]
EndInt(p) == [Token(p, "INTEGER", p.buf) EXCEPT !.mode = "skip", !.buf = <<>>]

First(p, b) ==
    IF b \in {32, 9, 10, 13} THEN p
    ELSE LET s == [p EXCEPT !.tl = p.l, !.tc = p.c]
         IN IF IsLetter(b) THEN [s EXCEPT !.mode = "word", !.buf = <<b>>]
            ELSE IF IsDigit(b) THEN [s EXCEPT !.mode = "int", !.buf = <<b>>]
            ELSE IF b = QUOTE THEN [s EXCEPT !.mode = "str", !.buf = <<>>]
            ELSE IF b = 47 THEN [s EXCEPT !.mode = "slash"]
            ELSE IF b \in DOMAIN Symbol THEN Token(s, Symbol[b], <<>>)
            ELSE Here(s, "symbol")

Byte(p, b) ==
    IF p.mode = "skip" THEN First(p, b)
    ELSE IF p.mode = "word" THEN
        (IF IsLetter(b) \/ IsDigit(b) THEN [p EXCEPT !.buf = Append(@, b)]
         ELSE IF b = DOT THEN [p EXCEPT !.mode = "dot", !.buf = Append(@, b)]
         ELSE LET e == EndWord(p) IN IF e.st = "run" THEN First(e, b) ELSE e)
    ELSE IF p.mode = "dot" THEN
        (IF IsLetter(b) THEN [p EXCEPT !.mode = "word", !.buf = Append(@, b)] ELSE Here(p, "identifier"))
    ELSE IF p.mode = "int" THEN
        (IF IsDigit(b) THEN [p EXCEPT !.buf = Append(@, b)]
         ELSE LET e == EndInt(p) IN IF e.st = "run" THEN First(e, b) ELSE e)
    ELSE IF p.mode = "str" THEN
        (IF b = QUOTE THEN [Token(p, "STRING", p.buf) EXCEPT !.mode = "skip", !.buf = <<>>]
         ELSE IF b = LF \/ b = 0 THEN Here(p, "string")
         ELSE [p EXCEPT !.buf = Append(@, b)])
    ELSE IF p.mode = "slash" THEN
        (IF b = 47 THEN [p EXCEPT !.mode = "line"] ELSE IF b = 42 THEN [p EXCEPT !.mode = "block"] ELSE Here(p, "symbol"))
    ELSE IF p.mode = "line" THEN (IF b = LF THEN [p EXCEPT !.mode = "skip"] ELSE p)
    ELSE IF p.mode = "block" THEN (IF b = 42 THEN [p EXCEPT !.mode = "star"] ELSE p)
    ELSE (* star *) (IF b = 47 THEN [p EXCEPT !.mode = "skip"] ELSE IF b = 42 THEN p ELSE [p EXCEPT !.mode = "block"])

PFeed(p, b) ==
    IF p.st # "run" THEN p
    ELSE Byte(IF p.lf THEN [p EXCEPT !.l = @ + 1, !.c = 1, !.lf = (b = LF)] ELSE [p EXCEPT !.c = @ + 1, !.lf = (b = LF)], b)
PFeedAll(p, s) == FoldLeft(PFeed, p, s)

(* The end of the input *)
PEnd(p) ==
    IF p.st # "run" THEN p
    ELSE LET e == CASE p.mode \in {"skip", "line"} -> p
                    [] p.mode = "word" -> EndWord(p)
                    [] p.mode = "int" -> EndInt(p)
                    [] p.mode = "dot" -> Here(p, "identifier")
                    [] p.mode = "str" -> Here(p, "string")
                    [] p.mode = "slash" -> Here(p, "symbol")
                    [] OTHER -> Here(p, "comment")
         IN IF e.st # "run" THEN e
            ELSE Token([e EXCEPT !.tl = IF p.lf THEN p.l + 1 ELSE p.l, !.tc = IF p.lf THEN 0 ELSE p.c], "EOF", <<>>)

(***************************************************************************)
(* The schema as a whole                                                   *)
(***************************************************************************)

(* A package and the ones that enclose it, the innermost first *)
RECURSIVE Scopes(_)
Scopes(pkg) ==
    IF pkg = <<>> THEN << <<>> >>
    ELSE LET d == SelectLastInSeq(pkg, LAMBDA x : x = DOT)
         IN << pkg >> \o Scopes(IF d = 0 THEN <<>> ELSE Upto(pkg, d - 1))

(* The message (its position) a type name stands for, or 0 *)
Meant(names, pkg, n) ==
    LET sc == Scopes(pkg)
        k == SelectInSeq(sc, LAMBDA s : Qualified(s, n) \in DOMAIN names)
    IN IF k = 0 THEN 0 ELSE names[Qualified(sc[k], n)]

NamesOf(ms) == LET I == 1..Len(ms)
                   Q == [i \in I |-> Qualified(ms[i].p, ms[i].n)]
               IN [x \in Range(Q) |-> CHOOSE i \in I : Q[i] = x]

(* The messages with the references resolved: x is the position of the type *)
Resolved(ms) ==
    LET N == NamesOf(ms)
    IN [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.f = [j \in 1..Len(ms[i].f) |->
          LET f == ms[i].f[j]
          IN [n |-> f.n, i |-> f.i, t |-> IF f.q = 1 THEN <<>> ELSE f.t, r |-> f.r, o |-> f.o, q |-> f.q,
              x |-> IF f.q = 1 THEN Meant(N, ms[i].p, f.t) ELSE 0]]]]

Uses(m) == {m.f[j].x : j \in 1..Len(m.f)} \ {0}
(* messages leave when all they contain has left *)
RECURSIVE Leave(_, _)
Leave(ms, left) ==
    LET more == {i \in 1..Len(ms) : i \notin left /\ Uses(ms[i]) \subseteq left}
    IN IF more = {} THEN left ELSE Leave(ms, left \cup more)
Circular(ms) == Leave(ms, {}) # 1..Len(ms)

OptionOf(o, n) == o[SelectInSeq(o, LAMBDA x : x[1] = n)]
KindOf(o, n) == IF HasOption(o, n) THEN OptionOf(o, n)[2] ELSE "none"
IsOn(o, n) == HasOption(o, n) /\ OptionOf(o, n)[3] = <<116, 114, 117, 101>>
JsonName(f) == IF KindOf(f.o, O_name) = "string" THEN OptionOf(f.o, O_name)[3] ELSE f.n
Unsuitable(n) == \E i \in 1..Len(n) : n[i] \in {34, 39, 92} \/ n[i] < 32

BadKind(o, n, k) == KindOf(o, n) \notin {"none", k}
FileFlags == {O_number_names, O_obfuscate_strings, O_cpp_use_lists}

(* conditions that make a schema with resolved references unacceptable *)
Wrong(opts, ms) ==
    \/ \E n \in FileFlags : BadKind(opts, n, "boolean")
    \/ Circular(ms)
    \/ \E i \in 1..Len(ms) :
         LET F == ms[i].f
             pers == {j \in 1..Len(F) : ~IsOn(F[j].o, O_transient)}
         IN \/ Len(F) > 64
            \/ \E j \in 1..Len(F) : BadKind(F[j].o, O_transient, "boolean")
            \/ /\ ~IsOn(opts, O_number_names)
               /\ \/ \E j \in pers : BadKind(F[j].o, O_name, "string") \/ Unsuitable(JsonName(F[j]))
                  \/ Cardinality({JsonName(F[j]) : j \in pers}) # Cardinality(pers)
(* names that do not matter because the field has no JSON name, or another one *)
Doubtful(opts, ms) ==
    \E i \in 1..Len(ms) : \E j \in 1..Len(ms[i].f) :
       LET f == ms[i].f[j]
       IN (IsOn(f.o, O_transient) \/ IsOn(opts, O_number_names)) /\ (BadKind(f.o, O_name, "string") \/ Unsuitable(JsonName(f)))

(* v: "ok"; "place" (rejected between e and h); "whole" (rejected); "any" *)
Outcome(p) ==
    LET e == PEnd(p)
        none == [v |-> "whole", why |-> "", el |-> 0, ec |-> 0, hl |-> 0, hc |-> 0, odd |-> e.odd, opts |-> <<>>, msgs |-> <<>>]
    IN IF e.st = "err" THEN [none EXCEPT !.v = "place", !.why = e.why, !.el = e.el, !.ec = e.ec, !.hl = e.hl, !.hc = e.hc]
       ELSE LET ms == Resolved(e.msgs)
            IN IF \E i \in 1..Len(ms) : \E j \in 1..Len(ms[i].f) : ms[i].f[j].q = 1 /\ ms[i].f[j].x = 0
               THEN [none EXCEPT !.why = "unresolved"]
               ELSE [none EXCEPT !.why = IF Wrong(e.opts, ms) THEN "wrong" ELSE "", !.opts = e.opts, !.msgs = ms,
                       !.v = IF e.odd \/ (Doubtful(e.opts, ms) /\ ~Wrong(e.opts, ms)) THEN "any" ELSE IF Wrong(e.opts, ms) THEN "whole" ELSE "ok"]

Compile(text) == Outcome(PFeedAll(PInit, text))
=============================================================================
