------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* What a schema becomes: the C++ class of every message, the C++ type of  *)
(* every member, and the JSON side of every member (its name, whether it   *)
(* is read and written).  A schema is read one declaration at a time:      *)
(*   [d |-> "opt", o |-> name, v |-> 0/1]      a file option               *)
(*   [d |-> "pkg", p |-> <<"a", "b">>]         a package                   *)
(*   [d |-> "msg", n |-> name, f |-> fields]   a message                   *)
(* A field is [n, t, rep, num, js, tr, m]: name, type, repeated?, number,  *)
(* name option (<<>> or <<bytes>>), transient option (0 absent, 1 false,   *)
(* 2 true), index of the message.  Names and JSON names are byte strings   *)
(* where they reach JSON and strings where they only reach C++.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

FileOptions == {"number_names", "obfuscate_strings", "cpp_use_lists"}

(* the state of reading: options 0 absent, 1 false, 2 true *)
BInit == [o |-> [x \in FileOptions |-> 0], pkg |-> <<>>, msgs |-> <<>>]

BFeed(b, d) ==
    CASE d.d = "opt" -> [b EXCEPT !.o[d.o] = 1 + d.v]
      [] d.d = "pkg" -> [b EXCEPT !.pkg = d.p]
      [] d.d = "msg" -> [b EXCEPT !.msgs = Append(b.msgs, [n |-> d.n, p |-> b.pkg, f |-> d.f])]

RECURSIVE BFeedAll(_, _)
BFeedAll(b, ds) == IF ds = <<>> THEN b ELSE BFeedAll(BFeed(b, Head(ds)), Tail(ds))

On(b, x) == b.o[x] = 2

(* the table of the documentation; RT is the namespace of the runtime *)
Native(t) ==
    CASE t = "double" -> "double" [] t = "float" -> "float"
      [] t \in {"int32", "sint32", "sfixed32"} -> "std::int32_t"
      [] t \in {"int64", "sint64", "sfixed64"} -> "std::int64_t"
      [] t \in {"uint32", "fixed32"} -> "std::uint32_t"
      [] t \in {"uint64", "fixed64"} -> "std::uint64_t"
      [] t = "bool" -> "bool"

RECURSIVE Path(_)
Path(p) == IF p = <<>> THEN "" ELSE "::" \o Head(p) \o Path(Tail(p))
ClassOf(b, i) == Path(b.msgs[i].p) \o "::" \o b.msgs[i].n

Bytes8 == "std::vector<std::uint8_t>"
Single(b, f) == CASE f.t = "message" -> ClassOf(b, f.m) [] f.t = "string" -> "RT::string_field" [] f.t = "bytes" -> Bytes8
                  [] OTHER -> "RT::field<" \o Native(f.t) \o ">"
(* elements are plain; a message is its class or the struct of its data; a string behaves as a std::string *)
Element(b, f) == CASE f.t = "message" -> ClassOf(b, f.m) [] f.t = "string" -> "std::string" [] f.t = "bytes" -> Bytes8 [] OTHER -> Native(f.t)

CppType(b, f) == IF f.rep = 0 THEN [c |-> "", e |-> Single(b, f)]
                 ELSE [c |-> IF On(b, "cpp_use_lists") THEN "std::list" ELSE "std::vector", e |-> Element(b, f)]

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

JsonName(b, f) == IF On(b, "number_names") THEN Decimal(f.num) ELSE IF f.js # <<>> THEN f.js[1] ELSE f.n
Transient(f) == f.tr = 2

Kind(t) == CASE t = "double" -> "f64" [] t = "float" -> "f32"
             [] t \in {"int32", "sint32", "sfixed32"} -> "i32" [] t \in {"int64", "sint64", "sfixed64"} -> "i64"
             [] t \in {"uint32", "fixed32"} -> "u32" [] t \in {"uint64", "fixed64"} -> "u64"
             [] t = "bool" -> "bool" [] t = "string" -> "str" [] t = "bytes" -> "bytes" [] t = "message" -> "msg"

FieldBinding(b, f) == [cpp |-> CppType(b, f), n |-> JsonName(b, f), k |-> Kind(f.t), r |-> f.rep, t |-> IF Transient(f) THEN 1 ELSE 0, m |-> IF f.t = "message" THEN f.m ELSE 0]
Meaning(b) == [i \in 1..Len(b.msgs) |-> [cls |-> ClassOf(b, i), f |-> [j \in 1..Len(b.msgs[i].f) |-> FieldBinding(b, b.msgs[i].f[j])]]]

(* JSON names that must not be visible *)
Hidden(b) == IF On(b, "obfuscate_strings")
             THEN {JsonName(b, b.msgs[i].f[j]) : <<i, j>> \in {<<x, y>> \in (1..Len(b.msgs)) \X (1..64) : y <= Len(b.msgs[x].f) /\ ~Transient(b.msgs[x].f[y])}}
             ELSE {}
=============================================================================
