----------------------------- MODULE ObjectsMC -----------------------------
(***************************************************************************)
(* All reachable stores over small field domains: TLC takes every          *)
(* operation in every store and prints the operations that lead there with *)
(* what has to be observed then; the scripts are replayed in the real      *)
(* classes.                                                                *)
(***************************************************************************)
EXTENDS Objects, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
S == Cfg.schema
M == Cfg.m
Dom == Cfg.dom           \* for each field, the values it may be assigned
Texts == Cfg.texts
Used == 0..(Cfg.objects - 1)

VARIABLES objs, path
vars == <<objs, path>>
View == objs

Fs == 0..(Len(Dom) - 1)
Bounded(o) == \A j \in 1..3 : \A i \in 1..Len(Dom) : (S[M].f[i].r = 1 => Len(o[j][i]) <= Cfg.maxlen)

Ops == {<<op, a, 0, f, Dom[f + 1][v]>> : op \in {O_SET, O_SETOTHER}, a \in Used, f \in Fs, v \in 1..Cfg.vals}
       \cup {<<O_CLEARFIELD, a, 0, f, 0>> : a \in Used, f \in Fs}
       \cup {<<op, a, b, 0, 0>> : op \in {O_ASSIGN, O_SWAP, O_COPY, O_MOVE, O_MOVEASSIGN}, a \in Used, b \in Used}
       \cup {<<O_CLEAR, a, 0, 0, 0>> : a \in Used}
       \cup {<<op, a, b, f, 0>> : op \in {O_FIELDASSIGN, O_FIELDSWAP}, a \in Used, b \in Used, f \in Fs}
       \cup {<<O_NATIVE, a, b, f, (a + f) % 4>> : a \in Used, b \in Used, f \in Fs}
       \cup {<<O_READ, a, 0, 0, Texts[t]>> : a \in Used, t \in 1..Len(Texts)}

Init == objs = Start(S, M) /\ path = <<>>
Next == \E e \in Ops :
          /\ Bounded(objs)
          /\ objs' = Apply(S, <<>>, M, objs, e)
          /\ path' = Append(path, e)
          /\ PrintT("CASE " \o ToJson(<<path', Observed(S, M, objs')>>))
Spec == Init /\ [][Next]_vars

(* design properties *)
Def == DefMsg(S, M)
EmptyIsDefault == \A j \in 1..3 : EmptyMsg(S, M, objs[j]) <=> objs[j] = Def
(* what is written and read again is the persistent part *)
OthersUntouched == [][\A j \in 1..3 : (j - 1 # path'[Len(path')][2] /\ ~(path'[Len(path')][1] \in {O_SWAP, O_MOVE, O_MOVEASSIGN, O_FIELDSWAP} /\ j - 1 = path'[Len(path')][3]))
                       => objs'[j] = objs[j]]_vars
=============================================================================
