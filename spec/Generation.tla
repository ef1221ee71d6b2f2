----------------------------- MODULE Generation -----------------------------
(***************************************************************************)
(* The library as something with a history: schema trees in slots, which   *)
(* are parsed into (well or badly), generated from, again and again, and   *)
(* dropped.  What comes out of a generation is the header of the           *)
(* declarations the tree was parsed from, whatever happened before.        *)
(* TLC explores every history within the bounds and prints the longest     *)
(* ones with the header (its class) each step has to give.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MC == JsonDeserialize(IOEnv.MC)     \* class: for each text, 0 (not valid) or what it declares
Class == MC.class
Slots == 1..MC.slots

VARIABLES tree, done, result

Init == tree = [s \in Slots |-> 0] /\ done = <<>> /\ result = <<>>
Do(op, s, t, r) == done' = Append(done, <<op, s, t>>) /\ result' = Append(result, r)

Parse(s, t) == tree[s] = 0 /\ tree' = [tree EXCEPT ![s] = Class[t]] /\ Do("P", s, t, IF Class[t] = 0 THEN 0 ELSE -1)
Generate(s) == tree[s] # 0 /\ UNCHANGED tree /\ Do("G", s, 0, tree[s])
Drop(s) == tree[s] # 0 /\ tree' = [tree EXCEPT ![s] = 0] /\ Do("X", s, 0, -1)

Next == /\ Len(done) < MC.depth
        /\ \E s \in Slots : \/ \E t \in DOMAIN Class : Parse(s, t)
                            \/ Generate(s)
                            \/ Drop(s)
        /\ (Len(done') = MC.depth => PrintT("CASE " \o ToJson([d |-> done', r |-> result'])))
Spec == Init /\ [][Next]_<<tree, done, result>>

(* what the last parse into a slot declared *)
RECURSIVE Last(_, _)
Last(k, s) == IF k = 0 THEN 0
              ELSE IF done[k][2] # s \/ done[k][1] = "G" THEN Last(k - 1, s)
              ELSE IF done[k][1] = "X" THEN 0 ELSE Class[done[k][3]]
(* the result of a step is a function of the declarations alone *)
OnlyDeclarations == \A k \in 1..Len(done) : done[k][1] = "G" => result[k] = Last(k, done[k][2])
NeverFromNothing == \A k \in 1..Len(done) : done[k][1] = "G" => result[k] # 0
=============================================================================
