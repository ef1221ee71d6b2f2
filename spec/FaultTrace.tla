----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Validation of operations of the generated code that were stopped.       *)
(*   op "F": decode   mode, init, in, second, res                          *)
(*   op "G": encode   mode, val, ea, sn, res                               *)
(* A result has the places h where the fault struck (-1: it did not), how  *)
(* the operation ended (0 failure, 1 success, 2 the exception of the       *)
(* stream, 3 of the lack of memory, 4 another), and what was observed.     *)
(***************************************************************************)
EXTENDS Faults, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, verdict

(* modes of op "F" *)
F_NONE == 0
F_STOP == 1
F_ALLOC == {2, 3, 4}
F_QUIET == 5
F_LOUD == 6

JudgeF(c) ==
    LET S == Schemas[c.s]
        init == IF c.fresh = 1 THEN (IF c.root.r = 1 THEN <<>> ELSE DefMsg(S, c.root.m)) ELSE c.init
        n == Len(c.in)
        (* all states take too much room for a large text *)
        ds == IF c.mode = F_NONE THEN <<>> ELSE States(S, c.ft, c.root, init, c.in)
        last == IF c.mode = F_NONE THEN Decode(S, c.ft, c.root, init, c.in) ELSE Finish(ds[n + 1])
        at(k) == IF k + 1 > n THEN ds[n + 1] ELSE ds[k + 1]
        (* the state in which the machine was stopped *)
        stop(r, k) ==
            IF r.hit = 0 THEN last
            ELSE CASE c.mode = F_STOP -> IF k >= n THEN ds[n + 1] ELSE ds[k + 2]
                   [] c.mode \in F_ALLOC -> last
                   [] c.mode = F_QUIET -> Finish(at(k))
                   [] c.mode = F_LOUD -> at(k)
        weak == c.mode \in F_ALLOC
        (* did the operation see a whole text? *)
        whole(r, k) == r.hit = 0 \/ c.mode = F_QUIET
        how(r, k) ==
            LET d == stop(r, k) IN
            IF whole(r, k) /\ r.how \in {0, 1} THEN (r.how = 1) = (d.st = "ok")
            ELSE CASE r.hit = 0 -> FALSE
                   [] c.mode = F_STOP -> r.how \in {0, 2} \/ (r.how = 1 /\ last.st = "ok")
                   [] c.mode \in F_ALLOC -> r.how \in {0, 3} \/ (r.how = 1 /\ last.st = "ok")
                   [] OTHER -> r.how \in {0, 2, 4}
        bad(r, k) ==
            LET d == stop(r, k)
                a == Decode(S, c.ft, c.root, r.out, c.second)
            IN IF ~how(r, k) THEN "outcome"
               ELSE IF r.how = 1 /\ r.out # (IF whole(r, k) THEN d.res ELSE last.res) THEN "value"
               ELSE IF r.how # 1 /\ ~Explained(S, c.root, weak, init, Collapse(d), r.out) THEN "object"
               ELSE IF r.how = 0 /\ (r.code = 0 \/ r.msg = 0) THEN "no error"
               ELSE IF r.par # 1 THEN "side effect"
               ELSE IF r.cpy # 1 THEN "copy"
               ELSE IF r.clr # (IF c.root.r = 1 THEN <<>> ELSE DefMsg(S, c.root.m)) THEN "clear"
               ELSE IF (r.aok = 1) # (a.st = "ok") \/ (r.aok = 1 /\ r.aout # a.res) THEN "second reading"
               ELSE IF r.left # 0 THEN "memory"
               ELSE "ok"
        bads == {<<bad(r, k), k>> : <<r, k>> \in UNION {{<<r, k>> : k \in Range(r.h)} : r \in Range(c.res)}}
        wrong == {b \in bads : b[1] # "ok"}
    IN IF wrong # {} THEN <<"bad", CHOOSE b \in wrong : \A x \in wrong : b[2] <= x[2], last.st>> ELSE <<"ok">>

G_ALLOC == {2, 3, 4, 5, 6}
G_SINK == {7, 8, 9}

JudgeG(c) ==
    LET S == Schemas[c.s]
        can == Writable(S, c.root, c.val, c.ea = 1, c.sn = 1)
        first == CHOOSE r \in Range(c.res) : -2 \in Range(r.h)
        j == ReadJson(first.ref)
        rest == {r \in Range(c.res) : ~(-2 \in Range(r.h))}
        bad(r) ==
            IF r.hit = 0 /\ r.how # (IF can THEN 1 ELSE 0) THEN "outcome"
            ELSE IF r.hit = 1 /\ r.how = 1 /\ ~(can /\ c.mode \in G_ALLOC /\ r.full = 1) THEN "fault not reported"
            ELSE IF r.hit = 1 /\ r.how = 2 /\ c.mode \in G_ALLOC THEN "outcome"
            ELSE IF r.hit = 1 /\ r.how = 3 /\ ~(c.mode \in G_ALLOC) THEN "outcome"
            ELSE IF r.hit = 1 /\ r.how = 4 /\ ~(c.mode \in {5} \cup G_SINK) THEN "outcome"
            ELSE IF r.how = 1 /\ r.full # 1 THEN "text"
            ELSE IF r.pfx # 1 THEN "what was written"
            ELSE IF r.how = 0 /\ (r.code = 0 \/ r.msg = 0) THEN "no error"
            ELSE IF r.par # 1 THEN "side effect"
            ELSE IF r.out # c.val THEN "object changed"
            ELSE IF r.again # 1 THEN "second writing"
            ELSE IF r.left # 0 THEN "memory"
            ELSE "ok"
        bads == {<<bad(r), r.h[1]>> : r \in rest}
        wrong == {b \in bads : b[1] # "ok"}
    IN IF (first.how = 1) # can THEN <<"bad", "acceptance", can>>
       ELSE IF can /\ (j.st # "ok" \/ ~Says(S, c.ft, c.root, c.val, c.sn = 1, j.v)) THEN <<"bad", "content", can>>
       ELSE IF wrong # {} THEN <<"bad", CHOOSE b \in wrong : TRUE, can>>
       ELSE <<"ok">>

Judge(c) == IF c.op = "F" THEN JudgeF(c) ELSE JudgeG(c)

Init == i \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ UNCHANGED i
        /\ LET v == Judge(Cases[i])
           IN verdict' = v[1] /\ (v[1] = "ok" \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(v)))
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
