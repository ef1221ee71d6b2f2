------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* The order of the definitions in a header.  A schema declares messages   *)
(* 1..N in this order; uses[m] is the set of messages m contains.  A       *)
(* message is defined when all it contains has been: the header is         *)
(* complete when all are defined, and that is possible exactly when there  *)
(* is no circular reference.  TLC enumerates every graph of references,    *)
(* explores every order of definition and prints the graphs, which are     *)
(* given to the real compiler and its headers to the C++ compiler.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
N == Cfg.n
M == 1..N

VARIABLES uses, order

Defined == {order[i] : i \in 1..Len(order)}

(* some messages that contain each other *)
Cyclic(u) == \E S \in SUBSET M : S # {} /\ \A m \in S : u[m] \cap S # {}

Show(u) == IF Cfg.acyclic = 1 /\ Cyclic(u) THEN TRUE
           ELSE PrintT("CASE " \o ToJson(<<[m \in M |-> [x \in M |-> IF x \in u[m] THEN 1 ELSE 0]], IF Cyclic(u) THEN 1 ELSE 0>>))

Init == /\ uses \in [M -> SUBSET M]
        /\ (Cfg.acyclic = 1 => ~Cyclic(uses))
        /\ order = <<>>
        /\ Show(uses)

Define(m) == m \notin Defined /\ uses[m] \subseteq Defined /\ order' = Append(order, m) /\ uses' = uses
Next == \E m \in M : Define(m)
Spec == Init /\ [][Next]_<<uses, order>> /\ WF_<<uses, order>>(Next)

(* each message once, after what it contains *)
Once == Cardinality(Defined) = Len(order)
After == \A i \in 1..Len(order) : uses[order[i]] \subseteq {order[j] : j \in 1..(i - 1)}
(* whatever the order chosen so far, the definitions can go on unless there is a cycle *)
Stuck == ~ENABLED Next => (Defined = M \/ Cyclic(uses))
(* and a cycle is never complete *)
Never == Defined = M => ~Cyclic(uses)
=============================================================================
