------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Several operations at the same time.  Operation i is a decoder machine  *)
(* reading its own text byte by byte into its own object, or an encoder    *)
(* writing its own text (or that of an object it shares with the others)   *)
(* piece by piece.  The system is their product: a step of one changes     *)
(* nothing of another, and each ends as it would alone.  TLC explores      *)
(* every interleaving and prints, for every reachable combination of       *)
(* progress and every step from there, a schedule that leads to it.  The   *)
(* schedules are replayed in the real code, whose streams are held back so *)
(* that its operations proceed exactly in that order.                      *)
(***************************************************************************)
EXTENDS Decoder, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
Groups == Cfg.groups    \* sets of operations: [k |-> "D", s, root, text] or [k |-> "S", steps, obj]
FT == Cfg.ft
Schemas == Cfg.schemas

VARIABLES g, st, pos, objs, sched

Ops == Groups[g]
N == Len(Ops)

Start(o) == IF o.k = "D" THEN DInit(Schemas[o.s], FT, o.root, IF o.root.r = 1 THEN <<>> ELSE DefMsg(Schemas[o.s], o.root.m))
            ELSE [st |-> "run", seen |-> <<>>]
Length(o) == IF o.k = "D" THEN Len(o.text) ELSE o.steps
Over(i) == pos[i] > Length(Ops[i])

(* objects that are read by encoders *)
Init == /\ g \in 1..Len(Groups)
        /\ st = [i \in 1..N |-> Start(Ops[i])]
        /\ pos = [i \in 1..N |-> 0]
        /\ objs = [x \in {Ops[i].obj : i \in {j \in 1..N : Ops[j].k = "S"}} |-> "value"]
        /\ sched = <<>>

Alone(o, s, p) ==
    IF o.k = "D" THEN (IF p < Len(o.text) THEN Feed(s, o.text[p + 1]) ELSE Finish(s))
    ELSE [s EXCEPT !.seen = Append(@, objs[o.obj])]

Step(i) == /\ ~Over(i)
           /\ st' = [st EXCEPT ![i] = Alone(Ops[i], st[i], pos[i])]
           /\ pos' = [pos EXCEPT ![i] = @ + 1]
           /\ sched' = Append(sched, i)
           /\ UNCHANGED <<g, objs>>
           /\ PrintT("CASE " \o ToJson(<<g, sched'>>))
Next == \E i \in 1..N : Step(i)
vars == <<g, st, pos, objs, sched>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<g, st, pos, objs>>

(* each operation ends as it would alone *)
Solo == \A i \in 1..N : Over(i) /\ Ops[i].k = "D" =>
          LET d == Decode(Schemas[Ops[i].s], FT, Ops[i].root, IF Ops[i].root.r = 1 THEN <<>> ELSE DefMsg(Schemas[Ops[i].s], Ops[i].root.m), Ops[i].text)
          IN st[i].st = d.st /\ st[i].res = d.res /\ st[i].code = d.code /\ st[i].el = d.el /\ st[i].ec = d.ec
(* at any moment the state of each is a function of its own progress *)
Progress == \A i \in 1..N : Ops[i].k = "D" /\ pos[i] <= Len(Ops[i].text) =>
              st[i] = FeedAll(Start(Ops[i]), SubSeq(Ops[i].text, 1, pos[i]))
(* encoders see the same object all the time *)
Steady == \A i \in 1..N : Ops[i].k = "S" => \A j \in 1..Len(st[i].seen) : st[i].seen[j] = "value"
=============================================================================
