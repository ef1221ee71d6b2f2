------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* Headers together in one translation unit.  A header brings the parts of *)
(* the runtime its schema needs, each of which must be defined once per    *)
(* unit whoever brings it, its standard library headers, and its messages. *)
(* It may be included again.  TLC enumerates all the sequences of headers  *)
(* up to the bound, which are compiled and linked.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
H == 1..Len(Cfg.headers)                      \* each header: the set (sequence) of optional parts it needs
Needs(h) == {"base"} \cup {Cfg.headers[h][i] : i \in 1..Len(Cfg.headers[h])}

(* unit: what is included; parts: the parts in their order of definition; usable: headers whose messages can be used *)
VARIABLES unit, parts, usable

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Put(_, _)
Put(ps, need) == IF need \subseteq Range(ps) THEN ps
                 ELSE LET p == CHOOSE x \in need \ Range(ps) : (x # "base" => "base" \in Range(ps)) IN Put(Append(ps, p), need)

Init == unit = <<>> /\ parts = <<>> /\ usable = {}
Include(h) ==
    /\ Len(unit) < Cfg.len
    /\ unit' = Append(unit, h)
    /\ parts' = IF h \in usable THEN parts ELSE Put(parts, Needs(h))
    /\ usable' = usable \cup {h}
    /\ PrintT("CASE " \o ToJson(unit'))
Next == \E h \in H : Include(h)
Spec == Init /\ [][Next]_<<unit, parts, usable>>

PartsOnce == Cardinality(Range(parts)) = Len(parts)
PartsNeeded == \A h \in usable : Needs(h) \subseteq Range(parts)
NothingElse == Range(parts) \subseteq UNION {Needs(h) : h \in usable}
=============================================================================
