----------------------------- MODULE ProtoTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the schema compiler.  A case has a       *)
(* schema text, what the parser of the library understood (lib: verdict,   *)
(* position, messages) and what the command line tool did with it (cli:    *)
(* exit status and reported position), if it was run.                      *)
(***************************************************************************)
EXTENDS Proto, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, verdict

Opts(o) == {<<o[j][1], o[j][2], o[j][3]>> : j \in 1..Len(o)}
SameField(f, g) == /\ f.n = g.n /\ f.i = g.i /\ f.t = g.t /\ f.r = g.r /\ f.x = g.x
                   /\ Opts(f.o) = Opts(g.o) /\ Len(f.o) = Len(g.o)
SameMsg(a, b) == /\ a.n = b.n /\ a.p = b.p /\ Opts(a.o) = Opts(b.o) /\ Len(a.o) = Len(b.o)
                 /\ Len(a.f) = Len(b.f) /\ \A j \in 1..Len(a.f) : SameField(a.f[j], b.f[j])
Same(o, r) == /\ Opts(o.opts) = Opts(r.opts) /\ Len(o.opts) = Len(r.opts)
              /\ Len(o.msgs) = Len(r.msgs) /\ \A j \in 1..Len(o.msgs) : SameMsg(o.msgs[j], r.msgs[j])

Before(l, c, m, d) == l < m \/ (l = m /\ c <= d)
Within(o, r) == Before(o.el, o.ec, r.line, r.col) /\ Before(r.line, r.col, o.hl, o.hc)

(* lib.st: 0 understood and generated, 1 rejected by the parser, 2 by the generator.
   fac: what to judge: "pos" (valid schemas are understood), "neg" (others are rejected) *)
Judge(c) ==
    LET o == Compile(c.text)
        l == c.lib
        t == c.cli
        pos == "pos" \in Range(c.fac)
        neg == "neg" \in Range(c.fac)
        r == IF o.v = "ok" THEN
               (IF pos /\ (l.st # 0 \/ (t.run = 1 /\ t.exit # 0)) THEN "valid schema rejected"
                ELSE IF pos /\ ~Same(o, l) THEN "misunderstood" ELSE "ok")
             ELSE IF o.v = "any" THEN (IF pos /\ ~o.odd /\ l.st # 1 /\ ~Same(o, l) THEN "misunderstood" ELSE "ok")
             ELSE IF ~neg THEN "ok"
             ELSE IF l.st = 0 \/ (t.run = 1 /\ t.exit = 0) THEN "invalid schema accepted"
             ELSE IF t.run = 1 /\ (t.exit # 1 \/ t.diag # 1) THEN "no diagnostic"
             ELSE IF o.v = "place" /\ (~Within(o, l) \/ (t.run = 1 /\ ~Within(o, t))) THEN "position"
             ELSE "ok"
    IN IF r = "ok" THEN <<"ok">> ELSE <<"bad", r, o.v, o.why, o.el, o.ec, o.hl, o.hc>>

Init == i \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ UNCHANGED i
        /\ LET v == Judge(Cases[i])
           IN verdict' = v[1] /\ (v[1] = "ok" \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(v)))
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
