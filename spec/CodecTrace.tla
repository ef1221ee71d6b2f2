----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the generated code.  A case is one *)
(* operation with its arguments and all the distinct results observed      *)
(* (one per group of channels, threads, locales...).  Each case is one     *)
(* behaviour todo -> ok/bad; the judgement runs the byte machines.         *)
(*   op "D": decode    s schema, root, init (or none), in, ft, res         *)
(*   op "S": encode    s schema, root, val, ea, sn, ft, res                *)
(*   op "R": encode and decode again   s, root, val, ea, sn, res           *)
(*   op "O": operations on objects   s, root, script, res                  *)
(* fac: the facets to judge (D: pos, neg, val, err, par, chan; S: acc, val,     *)
(* form, err, par, chan).                    *)
(***************************************************************************)
EXTENDS Objects, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, verdict

Facet(c, f) == f \in Range(c.fac)

(* every channel but the one without parameters reports the error *)
Reports(r) == r.code # 0 - 1

JudgeD(c) ==
    LET S == Schemas[c.s]
        init == IF c.fresh = 1 THEN (IF c.root.r = 1 THEN <<>> ELSE DefMsg(S, c.root.m)) ELSE c.init
        d == Decode(S, c.ft, c.root, init, c.in)
        ok == d.st = "ok"
        bad(r) ==
            IF Facet(c, "pos") /\ ok /\ r.ok = 0 THEN "valid text rejected"
            ELSE IF Facet(c, "neg") /\ ~ok /\ r.ok = 1 THEN "invalid text accepted"
            ELSE IF Facet(c, "val") /\ ok /\ r.ok = 1 /\ r.out # d.res THEN "value"
            ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 1 /\ (r.code # 0 \/ r.msg # 0) THEN "error not clear"
            ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 0 /\ (r.code = 0 \/ r.msg = 0) THEN "no error"
            ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 0 /\ ~ok /\ r.code # d.code THEN "code"
            ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 0 /\ ~ok /\ (r.line # d.el \/ r.col # d.ec) THEN "position"
            ELSE IF Facet(c, "par") /\ r.par # 1 THEN "side effect"
            ELSE "ok"
        bads == {bad(r) : r \in Range(c.res)} \ {"ok"}
        same(r, q) == r.ok = q.ok /\ r.out = q.out
                      /\ (Reports(r) /\ Reports(q) => r.code = q.code /\ r.line = q.line /\ r.col = q.col /\ r.msg = q.msg)
    IN IF bads # {} THEN <<"bad", CHOOSE x \in bads : TRUE, d.st, d.code, d.el, d.ec>>
       ELSE IF Facet(c, "chan") /\ \E r, q \in Range(c.res) : ~same(r, q) THEN <<"bad", "channels", d.st, d.code, d.el, d.ec>>
       ELSE <<"ok">>

(* channels that have to fail: buffers that are too small and a full device *)
MustFail == {6, 9, 10}
(* the channel without parameters: both options are off *)
NoParams == 7

JudgeS(c) ==
    LET S == Schemas[c.s]
        can == [ea \in BOOLEAN, sn \in BOOLEAN |-> Writable(S, c.root, c.val, ea, sn)]
        under(r, j, ea, sn) ==
            IF Facet(c, "acc") /\ (r.ok = 1) # can[ea, sn] THEN "acceptance"
            ELSE IF r.ok = 0 \/ ~(Facet(c, "val") \/ Facet(c, "form")) THEN "ok"
            ELSE IF j.st # "ok" THEN "malformed"
            ELSE IF ea /\ ~j.ascii THEN "not ascii"
            ELSE IF Facet(c, "val") /\ ~Says(S, c.ft, c.root, c.val, sn, j.v) THEN "content"
            ELSE "ok"
        bad(r) ==
            LET j == ReadJson(r.out)
                H == Range(r.h)
                a == IF H \ (MustFail \cup {NoParams}) # {} THEN under(r, j, c.ea = 1, c.sn = 1) ELSE "ok"
                b == IF NoParams \in H THEN under(r, j, FALSE, FALSE) ELSE "ok"
            IN IF Facet(c, "chan") /\ H \cap MustFail # {} /\ r.ok = 1 THEN "overflow accepted"
               ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 1 /\ (r.code # 0 \/ r.msg # 0) THEN "error not clear"
               ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 0 /\ (r.code = 0 \/ r.msg = 0) THEN "no error"
               ELSE IF Facet(c, "err") /\ Reports(r) /\ r.ok = 0 /\ r.code # E_VALUE THEN "code"
               ELSE IF Facet(c, "par") /\ r.par # 1 THEN "side effect"
               ELSE IF a # "ok" THEN a ELSE b
        bads == {bad(r) : r \in Range(c.res)} \ {"ok"}
        alike == MustFail \cup (IF c.ea = 0 /\ c.sn = 0 THEN {} ELSE {NoParams})
        good == {r \in Range(c.res) : Range(r.h) \ alike # {}}
    IN IF bads # {} THEN <<"bad", CHOOSE x \in bads : TRUE, can[c.ea = 1, c.sn = 1]>>
       ELSE IF Facet(c, "chan") /\ \E r, q \in good : r.ok # q.ok \/ r.out # q.out THEN <<"bad", "channels", can[c.ea = 1, c.sn = 1]>>
       ELSE <<"ok">>

JudgeR(c) ==
    LET S == Schemas[c.s]
        can == Writable(S, c.root, c.val, c.ea = 1, c.sn = 1)
        want == Persist(S, c.root.m, c.val)
        bad(r) ==
            IF (r.sok = 1) # can THEN "serialisation"
            ELSE IF can /\ r.dok # 1 THEN "deserialisation"
            ELSE IF can /\ r.out # want THEN "value"
            ELSE IF can /\ (r.eq = 1) # (want = c.val) THEN "equality"
            ELSE IF can /\ want = c.val /\ r.again # 1 THEN "second turn"
            ELSE "ok"
        bads == {bad(r) : r \in Range(c.res)} \ {"ok"}
    IN IF bads # {} THEN <<"bad", CHOOSE x \in bads : TRUE, can>> ELSE <<"ok">>

(* a script of operations on objects; res is the sequence of observations *)
JudgeO(c) ==
    LET r == FirstDifference(Schemas[c.s], c.ft, c.root.m, c.script, c.res)
    IN IF r.bad # 0 THEN <<"bad", "step", r.bad, c.script[r.bad]>> ELSE <<"ok">>

Judge(c) == CASE c.op = "D" -> JudgeD(c) [] c.op = "S" -> JudgeS(c) [] c.op = "R" -> JudgeR(c) [] c.op = "O" -> JudgeO(c)

Init == i \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ UNCHANGED i
        /\ LET v == Judge(Cases[i])
           IN verdict' = v[1] /\ (v[1] = "ok" \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(v)))
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
