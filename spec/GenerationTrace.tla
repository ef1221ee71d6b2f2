--------------------------- MODULE GenerationTrace ---------------------------
(***************************************************************************)
(* Validation of recorded histories of the generator.  A history has texts *)
(* of schemas (in one file) and events: text t was compiled by "tool" or   *)
(* "lib", which gave d (an identification of the header, or of the         *)
(* diagnostic, byte for byte).  The machine keeps what each set of         *)
(* declarations has given (memo); every other event about the same         *)
(* declarations has to give the same.                                      *)
(***************************************************************************)
EXTENDS Proto, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

(* The declarations, without what must not matter: layout, the way types
   are named, options without a meaning, defaults made explicit.  The
   library keeps the order of the fields, the tool sorts them. *)
FieldNF(f) == [n |-> f.n, i |-> f.i, t |-> f.t, r |-> f.r, x |-> f.x, tr |-> IsOn(f.o, O_transient), js |-> JsonName(f)]
MsgNF(m, sorted) == LET F == [j \in 1..Len(m.f) |-> FieldNF(m.f[j])]
                    IN [n |-> m.n, p |-> m.p, set |-> IF sorted THEN Range(F) ELSE {}, seq |-> IF sorted THEN <<>> ELSE F]
Flags(o) == {n \in FileFlags : IsOn(o, n)}
Key(text, o, w) ==
    IF o.v = "ok" THEN [w |-> w, flags |-> Flags(o.opts), msgs |-> [j \in 1..Len(o.msgs) |-> MsgNF(o.msgs[j], w = "tool")], text |-> <<>>]
    ELSE [w |-> w, flags |-> {}, msgs |-> <<>>, text |-> text]

VARIABLES i, keys, memo, k, verdict

KeysOf(c) == [t \in 1..Len(c.texts) |-> LET o == Compile(c.texts[t])
                                        IN [tool |-> Key(c.texts[t], o, "tool"), lib |-> Key(c.texts[t], o, "lib"), ok |-> o.v = "ok"]]

Init == i \in 1..Len(Cases) /\ keys = <<>> /\ memo = <<>> /\ k = 0 /\ verdict = "run"

Event == Cases[i].events[k]
KeyOf(e) == IF e.w = "tool" THEN keys[e.t].tool ELSE keys[e.t].lib

Begin == k = 0 /\ keys' = KeysOf(Cases[i]) /\ k' = 1 /\ UNCHANGED <<i, memo, verdict>>
Step == /\ k \in 1..Len(Cases[i].events)
        /\ UNCHANGED <<i, keys>>
        /\ LET e == Event
               q == KeyOf(e)
               j == SelectInSeq(memo, LAMBDA m : m[1] = q)
               bad == IF e.kept # 1 THEN "the stream of the caller was changed"
                      ELSE IF j # 0 /\ memo[j][2] # e.d THEN "not the same as in event " \o ToString(memo[j][3])
                      ELSE ""
           IN IF bad = "" THEN /\ memo' = IF j = 0 THEN Append(memo, <<q, e.d, k>>) ELSE memo
                               /\ k' = k + 1 /\ UNCHANGED verdict
              ELSE memo' = memo /\ k' = -1 /\ verdict' = "bad" /\ PrintT("BAD " \o ToString(i) \o " " \o ToString(k) \o " " \o bad)
End == /\ k > Len(Cases[i].events)
       /\ k' = -1 /\ verdict' = "ok" /\ UNCHANGED <<i, keys, memo>>
       /\ PrintT("KEYS " \o ToString(i) \o " " \o ToString(Len(memo)) \o " " \o ToString(Len(Cases[i].events)))
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_<<i, keys, memo, k, verdict>>

(* one result for each set of declarations *)
Functional == \A a, b \in 1..Len(memo) : memo[a][1] = memo[b][1] => a = b
=============================================================================
