------------------------------- MODULE Guard -------------------------------
(***************************************************************************)
(* Including many headers in one unit.  A header whose guard is already    *)
(* defined adds nothing, so headers of different files must have different *)
(* guards.  A guard is made of letters, digits and underscores only, while *)
(* a path has any bytes: letters and digits stay, an underscore is         *)
(* doubled and any other byte is an underscore and two digits.  The        *)
(* machine includes the files in order and remembers which ones have to be *)
(* usable: all of them.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Names == JsonDeserialize(IOEnv.MC).names            \* byte sequences, all different

Plain(b) == (b >= 48 /\ b <= 57) \/ (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Piece(b) == IF Plain(b) THEN <<b>> ELSE IF b = 95 THEN <<95, 95>> ELSE <<95, Hex(b \div 16), Hex(b % 16)>>
GuardOf(s) == FlattenSeq([i \in 1..Len(s) |-> Piece(s[i])])

VARIABLES next, guards, usable

Init == next = 1 /\ guards = {} /\ usable = <<>>
Include ==
    /\ next <= Len(Names)
    /\ next' = next + 1
    /\ LET g == GuardOf(Names[next]) IN
       IF g \in guards THEN UNCHANGED <<guards, usable>>
       ELSE guards' = guards \cup {g} /\ usable' = Append(usable, next)
    /\ (next = Len(Names) => PrintT("CASE " \o ToJson(usable')))
Next == Include
Spec == Init /\ [][Next]_<<next, guards, usable>>

(* no schema is ever lost to another one *)
NeverLost == usable = [i \in 1..(next - 1) |-> i]
(* guards are names of macros *)
Valid == \A g \in guards : \A i \in 1..Len(g) : Plain(g[i]) \/ g[i] = 95
(* the path can be read back from its guard, whatever the two bytes next to each other *)
ASSUME \A a, b, c, d \in {0, 10, 45, 46, 47, 48, 50, 57, 65, 70, 95, 97, 127, 128, 255} : (GuardOf(<<a, b>>) = GuardOf(<<c, d>>)) => (a = c /\ b = d)
=============================================================================
