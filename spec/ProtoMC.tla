------------------------------ MODULE ProtoMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the schema machine of Proto over texts made   *)
(* of chunks.  Two texts are the same state when what may follow is the    *)
(* same for both: TLC covers every (state, chunk) pair up to the bounds,   *)
(* prints one text for each with its meaning, and checks the properties of the design       *)
(* below.  The texts are given to the real compiler.                       *)
(***************************************************************************)
EXTENDS Proto, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
Chunks == Cfg.chunks
MaxLen == Cfg.len
MaxMsgs == Cfg.msgs
MaxFields == Cfg.fields
Spacer == Cfg.spacer

VARIABLES text, p

Init == text = Cfg.start /\ p = PFeedAll(PInit, Cfg.start)

(* after the bound on messages or fields nothing more is added *)
Small(r) == Len(r.msgs) <= MaxMsgs /\ Len(r.m.f) <= MaxFields /\ Len(r.buf) <= 2

(***************************************************************************)
(* Completion                                                              *)
(***************************************************************************)

(* the shortest text that ends a valid schema *)
Closing(r) ==
    LET fresh == <<120, 57>>                 \* x9: a name and a number no chunk makes
        num == <<55, 55>>
        tail(q) == CASE q = "top" -> <<>>
              [] q = "s-eq" -> <<61>> \o <<34>> \o Proto3Version \o <<34, 59>>
              [] q = "s-text" -> <<34>> \o Proto3Version \o <<34, 59>>
              [] q = "s-end" -> <<59>>
              [] q = "p-name" -> <<32>> \o fresh \o <<59>>
              [] q = "p-end" -> <<59>>
              [] q = "m-name" -> <<32>> \o fresh \o <<123, 125>>
              [] q = "m-begin" -> <<123, 125>>
              [] q = "body" -> <<125>>
              [] q = "f-type" -> <<32, 98, 111, 111, 108, 32>> \o fresh \o <<61>> \o num \o <<59, 125>>
              [] q = "f-name" -> <<32>> \o fresh \o <<61>> \o num \o <<59, 125>>
              [] q = "f-eq" -> <<61>> \o num \o <<59, 125>>
              [] q = "f-num" -> <<32>> \o num \o <<59, 125>>
              [] q \in {"f-rest", "f-end"} -> <<59, 125>>
              [] q = "o-name" -> <<32>> \o fresh \o <<61>> \o num
              [] q = "o-eq" -> <<61>> \o num
              [] q = "o-value" -> <<32>> \o num
              [] q = "o-end" -> <<>>
        option(z) == IF z.q \in {"o-name", "o-eq", "o-value", "o-end"}
                     THEN (CASE z.owner = "file" -> <<59>> [] z.owner = "msg" -> <<59, 125>> [] OTHER -> <<93, 59, 125>>) ELSE <<>>
        (* ends the current lexical element *)
        s == CASE r.mode = "slash" -> <<47, 10>> [] r.mode = "block" -> <<42, 47>> [] r.mode = "star" -> <<47>> [] OTHER -> <<LF>>
        e == PFeedAll(r, s)
    IN IF e.st = "run" THEN s \o tail(e.q) \o option(e) ELSE s

Quiet == {"skip", "slash", "line", "block", "star"}

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)

Show(t, o) == IF Cfg.valid = 1 /\ o.v \notin {"ok", "any"} THEN TRUE ELSE PrintT("CASE " \o ToJson(<<t, o>>))

Next == \E k \in 1..Len(Chunks) :
          /\ p.st = "run" /\ Small(p) /\ Len(text) < MaxLen
          /\ text' = text \o Chunks[k]
          /\ p' = PFeedAll(p, Chunks[k])
          /\ Show(text', Outcome(p'))
          (* and the text with an end *)
          /\ IF p'.st = "run" THEN LET s == Closing(p') IN Show(text' \o s, Outcome(PFeedAll(p', s))) ELSE TRUE
Spec == Init /\ [][Next]_<<text, p>>

(***************************************************************************)
(* What can follow                                                         *)
(***************************************************************************)

Word(r) == CASE r.mode = "word" -> IF r.buf \in Texts THEN <<Keyword[r.buf]>> ELSE <<"word", r.buf>>
             [] r.mode = "str" -> <<"str", r.buf = Proto3Version>>
             [] r.mode = "int" -> <<"int", r.buf>>
             [] OTHER -> <<r.mode>>
Some(o) == o # <<>>
Pending(r) == <<r.f.n \in {g.n : g \in Range(r.m.f)}, r.f.i \in {g.i : g \in Range(r.m.f)}, r.f.q, Some(r.f.o)>>
(* in detail only when the chunks are whole declarations *)
Fields(m) == IF Cfg.deep = 1
             THEN [j \in 1..Len(m.f) |-> <<m.f[j].n, m.f[j].i, IF m.f[j].q = 1 THEN m.f[j].t ELSE <<>>, {<<x[1], x[2], x[3]>> : x \in Range(m.f[j].o)}>>]
             ELSE <<{m.f[j].n : j \in 1..Len(m.f)}, {m.f[j].i : j \in 1..Len(m.f)}>>
FileOpts(o) == IF Cfg.deep = 1 THEN Range(o) ELSE {}
View == IF p.st # "run" THEN <<p.st, p.why, p.q, p.owner, p.mode>>
        ELSE <<p.q, IF p.q \in {"o-name", "o-eq", "o-value", "o-end"} THEN p.owner ELSE "", Word(p), Pending(p), p.ver, p.odd /\ Cfg.deep = 1, p.pkg,
               Fields(p.m), p.m.n, [i \in 1..Len(p.msgs) |-> <<p.msgs[i].n, p.msgs[i].p, IF Cfg.deep = 1 THEN Fields(p.msgs[i]) ELSE <<>>>>], FileOpts(p.opts)>>

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)

(* An error is found at the earliest possible place: as long as there is none,
   some continuation is a schema whose form is right.  (A word, number or string of
   the wrong kind is an error when it is complete.) *)
Completable == p.st = "run" /\ p.mode \in Quiet =>
                 LET e == PEnd(PFeedAll(p, Closing(p))) IN e.st = "end" \/ e.why \in {"repeated", "version"}

(* Blanks and comments between tokens mean nothing *)
Plain(r) == [r EXCEPT !.l = 0, !.c = 0, !.tl = 0, !.tc = 0, !.lf = FALSE, !.sl = 0, !.sc = 0]
Layout == p.st = "run" /\ p.mode = "skip" => Plain(PFeedAll(p, Spacer)) = Plain(p)

(* Errors are inside the text that was read *)
Inside == p.st = "err" => /\ p.el < p.hl \/ (p.el = p.hl /\ p.ec <= p.hc)
                          /\ p.hl < p.l \/ (p.hl = p.l /\ p.hc <= p.c)

(* Every byte takes the machine one step further, and the end of the text always
   decides: the compiler stops after one step per byte. *)
Total == p.st = "run" => \A b \in 0..255 :
            LET e == PFeed(p, b) IN e.st \in {"run", "err"} /\ e.l + e.c > 0 /\ PEnd(e).st \in {"end", "err"}

(* Accepted schemas are consistent *)
Consistent ==
    LET o == Outcome(p)
    IN o.v = "ok" =>
         /\ \A i, j \in 1..Len(o.msgs) : Qualified(o.msgs[i].p, o.msgs[i].n) = Qualified(o.msgs[j].p, o.msgs[j].n) => i = j
         /\ \A i \in 1..Len(o.msgs) : \A j, k \in 1..Len(o.msgs[i].f) :
              LET f == o.msgs[i].f[j] g == o.msgs[i].f[k]
              IN /\ NumberOk(f.i)
                 /\ (f.i = g.i \/ f.n = g.n => j = k)
                 /\ (f.q = 1 => f.x \in 1..Len(o.msgs) /\ f.x # i)
=============================================================================
