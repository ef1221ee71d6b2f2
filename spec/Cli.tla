-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool as its caller sees it, step by step, in every     *)
(* environment: how many arguments, what the input is, what the output     *)
(* name leads to, what the standard output is, and where the system fails. *)
(* TLC explores every environment and prints the outcomes it allows; each  *)
(* environment is then made for the real tool, whose outcome has to be one *)
(* of them.                                                                *)
(*                                                                         *)
(* Contents are abstract: "absent", "old" (what was there), "header" (the  *)
(* complete header), "part" (anything), "none" (nothing written).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Args == 0..4
Inputs == {"valid", "large", "bare", "fifo", "link", "rejected", "missing", "dir", "unreadable", "loop", "noname"}
Outputs == {"none", "new", "old", "longer", "link", "dangling", "self", "null", "dir", "nodir", "notdir", "readonly", "noname", "full", "limit"}
Stdouts == {"file", "append", "pipe", "full", "closed", "limit", "broken"}
(* the system call that fails, counted from the first one on that file *)
Faults == {"none", "read", "write"}

VARIABLES env, pc, status, message, out, std, done

vars == <<env, pc, status, message, out, std, done>>

Good == {"valid", "large", "bare", "fifo", "link"}     \* the schema is valid and can be read
Openable == Good \cup {"rejected"}

(* what is there before *)
Before(o) == IF o \in {"old", "longer", "link", "self", "dir", "readonly"} THEN "old"
             ELSE IF o \in {"null", "full"} THEN "device" ELSE "absent"
CannotCreate == {"dir", "nodir", "notdir", "readonly", "noname"}

Sensible(e) ==
    (* only environments that can be made and differ *)
    /\ (e.args \notin {1, 2} => e.input = "valid" /\ e.output \in {"none", "old"} /\ e.std \in {"file", "pipe"} /\ e.fault = "none")
    /\ (e.args = 1 => e.output = "none")
    /\ (e.args = 2 => e.output # "none")
    /\ (e.args = 2 => e.std \in {"file", "full", "closed"})
    /\ (e.output = "self" => e.input \in {"valid", "rejected", "large"})
    /\ (e.fault # "none" => e.input \in {"valid", "large"} /\ e.output \in {"none", "new", "old"} /\ e.std = "file")
    /\ (e.input \in {"fifo", "bare", "link", "loop", "noname", "unreadable", "dir"} => e.output \in {"none", "new", "old", "full", "dir"} /\ e.std \in {"file", "pipe", "full"})

(* where in the input the deciding text stands: after that many lines,     *)
(* columns, messages, bytes of comment; the outcome does not depend on it. *)
Kinds == {"lines", "columns", "messages", "comment", "fields", "options"}
CONSTANT Span
Places == 1..Span \cup UNION {{d - 1, d, d + 1} : d \in {512, 768, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}}
Placed == [args : {1, 2}, input : {"valid", "rejected"}, output : {"none", "old"}, std : {"file"}, fault : {"none"}, kind : Kinds, at : Places]
PlacedSensible(e) == /\ (e.args = 1) <=> (e.output = "none")
                     /\ (e.at > Span => e.kind \in {"lines", "columns", "comment"})
                     /\ (e.kind = "messages" => e.at <= 600) /\ (e.kind = "fields" => e.at <= 63) /\ (e.kind = "options" => e.at <= 64)
                     /\ (e.args = 2 => e.at \in {1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 65536})
                     /\ (e.input = "valid" => e.at % 8 = 0 \/ e.at < 64)

Envs == {e \in [args : Args, input : Inputs, output : Outputs, std : Stdouts, fault : Faults, kind : {"any"}, at : {0}] : Sensible(e)}
        \cup {e \in Placed : PlacedSensible(e)}

Init == /\ env \in Envs
        /\ pc = "arguments"
        /\ status = 0 /\ message = 0 /\ done = FALSE
        /\ out = Before(env.output)
        /\ std = "none"

Fail == pc' = "exit" /\ status' = 1 /\ message' = 1
Stay == status' = status /\ message' = message
Go(p) == pc' = p /\ Stay

Arguments == /\ pc = "arguments"
             /\ IF env.args \in {1, 2} THEN Go("open") ELSE Fail
             /\ UNCHANGED <<env, out, std, done>>
Open == /\ pc = "open"
        /\ IF env.input \in Openable THEN Go("read") ELSE Fail
        /\ UNCHANGED <<env, out, std, done>>
Read == /\ pc = "read"
        /\ IF env.fault = "read" \/ env.input = "rejected" THEN Fail ELSE Go("destination")
        /\ UNCHANGED <<env, out, std, done>>
Destination == /\ pc = "destination"
               /\ IF env.output = "none" THEN Go("print") /\ out' = out
                  ELSE IF env.output \in CannotCreate THEN Fail /\ out' = out
                  ELSE Go("write") /\ out' = IF out = "device" THEN out ELSE "part"
               /\ UNCHANGED <<env, std, done>>
(* the text goes out in pieces; an error in any of them is an error of the whole *)
Write == /\ pc = "write"
         /\ IF env.output \in {"full", "limit"} \/ env.fault = "write" THEN Fail /\ out' = out
            ELSE Go("exit") /\ out' = IF out = "device" THEN out ELSE "header"
         /\ UNCHANGED <<env, std, done>>
Printing ==
         /\ pc = "print"
         /\ IF env.std \in {"full", "closed", "limit", "broken"} \/ env.fault = "write" THEN Fail /\ std' = "part"
            ELSE Go("exit") /\ std' = "header"
         /\ UNCHANGED <<env, out, done>>
Exit == /\ pc = "exit" /\ ~done /\ done' = TRUE
        /\ PrintT("CASE " \o ToJson(<<env, [status |-> status, message |-> message, out |-> out, std |-> std]>>))
        /\ UNCHANGED <<env, pc, status, message, out, std>>

Next == Arguments \/ Open \/ Read \/ Destination \/ Write \/ Printing \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)

Ends == <>done
Final == pc = "exit"
(* success exactly when the header is where it was asked for *)
Truth == Final => (status = 0 <=> IF env.output = "none" \/ env.args = 1 THEN std = "header" ELSE out \in {"header", "device"} /\ env.output # "full" /\ env.input \in Good)
Loud == Final => (status = 0 <=> message = 0)
(* nothing is destroyed before the whole header is known *)
Untouched == (env.input \notin Good \/ env.fault = "read") => out = Before(env.output)
Silent == (env.input \notin Good \/ env.fault = "read" \/ env.args # 1) => std = "none"
(* whoever asks for a file gets nothing else *)
OneWay == out # Before(env.output) => std = "none"
=============================================================================
