------------------------------ MODULE FaultsMC ------------------------------
(***************************************************************************)
(* The decoder machine with a fault that can strike after any chunk.  The  *)
(* object follows the machine with a delay: Keep stores everything read so *)
(* far, and what is not stored is lost when the fault strikes.  After that *)
(* the object is read into again.  Every behaviour that reaches a    *)
(* new state of the machine is printed and replayed in the real code.      *)
(***************************************************************************)
EXTENDS Faults, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
S == Cfg.schema
Chunks == Cfg.chunks
Root == Cfg.root
Inits == Cfg.inits
Again == Cfg.again
MaxFrames == Cfg.frames
MaxBuf == Cfg.buf
MaxLen == Cfg.len
MaxNames == Cfg.names
FT == Cfg.ft

VARIABLES n, text, d, held, names, phase

vars == <<n, text, d, held, names, phase>>
Known == {r.x : r \in Range(FT)}
Old == Inits[n]

Init == /\ n \in 1..Len(Inits) /\ text = <<>> /\ d = DInit(S, FT, Root, Inits[n])
        /\ held = Inits[n] /\ names = {} /\ phase = "reading"

Small(e) == Len(e.stk) <= MaxFrames /\ Len(e.buf) <= MaxBuf
Convertible(e, b) == e.mode = "num" /\ ~NumChar(b[1]) /\ IsNumber(e.buf) => e.buf \in Known

(* the member whose name has just been read: no member occurs twice here *)
Path(e) == [i \in 1..Len(e.stk) |-> CASE e.stk[i].k = "obj" -> e.stk[i].i [] e.stk[i].k = "arr" -> Len(e.stk[i].v) [] OTHER -> 0]
Named(e) == e.st = "run" /\ Top(e).k = "obj" /\ Top(e).s = "colon" /\ Top(e).i # 0

Read == \E k \in 1..Len(Chunks) :
          /\ phase = "reading" /\ d.st = "run" /\ Small(d) /\ Len(text) < MaxLen
          /\ Convertible(d, Chunks[k])
          /\ text' = text \o Chunks[k]
          /\ d' = FeedAll(d, Chunks[k])
          /\ names' = IF Named(d') /\ ~Named(d) THEN names \cup {Path(d')} ELSE names
          /\ Cardinality(names') <= MaxNames
          /\ ~(Named(d') /\ ~Named(d) /\ Path(d') \in names)
          /\ held # Old \/ PrintT("CASE " \o ToJson(<<n, text'>>))
          /\ UNCHANGED <<n, held, phase>>

(* everything is stored *)
Keep == phase = "reading" /\ held # Collapse(d) /\ held' = Collapse(d) /\ UNCHANGED <<n, text, d, names, phase>>

(* the end of the text, an exception, no memory: the machine goes no further *)
Fault == phase = "reading" /\ d.st # "ok" /\ phase' = "stopped" /\ UNCHANGED <<n, text, d, held, names>>

(* the object is used again *)
Reuse == phase = "stopped" /\ phase' = "again" /\ held' = Decode(S, FT, Root, held, Again).res /\ UNCHANGED <<n, text, d, names>>

Next == Read \/ Keep \/ Fault \/ Reuse
Spec == Init /\ [][Next]_vars

Frame(f, top) ==
    IF top THEN CASE f.k = "obj" -> IF f.s \in {"val", "colon"} THEN <<"obj", f.s, f.m, f.i>> ELSE <<"obj", f.s, f.m>>
                  [] f.k = "arr" -> <<"arr", f.s, f.ty.k, f.v # <<>> >>
                  [] OTHER -> <<f.k, f.s>>
    ELSE CASE f.k = "arr" -> <<"arr", f.ty.k, f.v # <<>> >> [] OTHER -> <<f.k>>
Buf == CASE d.st # "run" -> <<>>
         [] d.mode = "num" -> <<FoldLeft(NumStep, "start", d.buf)>>
         [] d.mode = "id" -> <<IdTok(d.buf)>>
         [] d.mode \in {"str", "esc", "hex"} -> <<d.buf = <<>> >>
         [] OTHER -> <<>>
(* how many fields have changed, and how much of that is held *)
Changed(x, y) == Cardinality({i \in 1..Len(x) : x[i] # y[i]})
Lag == CASE held = Collapse(d) -> 0 [] held = Old -> 2 [] OTHER -> 1
View == <<n, d.st, d.mode, d.ig, d.code, Buf, phase,
          [i \in 1..Len(d.stk) |-> Frame(d.stk[i], i = Len(d.stk))],
          Cardinality(names), Changed(Old, Collapse(d)), Lag>>

(***************************************************************************)
(* What is held is always explained by what was there and what was read,   *)
(* and it is a value of the schema: it can be read into again.             *)
(***************************************************************************)
HeldIsExplained == phase # "again" => Explained(S, Root, FALSE, Old, Collapse(d), held)
HeldIsValue == IsMsg(S, Root.m, held)
(* a member that is not named keeps its value *)
TopNames == {p[2] : p \in names}
OthersKeep == phase # "again" => \A i \in 1..Len(Old) : i \notin TopNames => held[i] = Old[i]
(* with the whole text read, the value is the result of the machine *)
WholeIsResult == d.st = "ok" => Collapse(d) = d.res
ReuseWorks == phase = "again" => held # <<>>
(* nothing that was explained before is unexplained later *)
Monotonic == [][phase = "reading" /\ phase' = "reading" => Explained(S, Root, FALSE, Old, Collapse(d'), held)]_vars
=============================================================================
