----------------------------- MODULE DecoderMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the decoder machine of Decoder over texts     *)
(* made of chunks.  Two texts are the same state when the machine cannot   *)
(* tell them apart but for values and positions, so TLC covers every       *)
(* (state, chunk) pair of the machine up to the nesting bound, prints one  *)
(* text for each with the result of decoding it, and checks the design     *)
(* properties below on the way.  The texts are replayed in the real        *)
(* decoder, whose results have to be the printed ones.                     *)
(***************************************************************************)
EXTENDS Encoder, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
S == Cfg.schema
Chunks == Cfg.chunks
Root == Cfg.root
MaxFrames == Cfg.frames
MaxBuf == Cfg.buf
MaxLen == Cfg.len
FT == Cfg.ft

VARIABLES text, d

Known == {r.x : r \in Range(FT)}

Init0 == IF Root.r = 1 THEN <<>> ELSE DefMsg(S, Root.m)
Init == text = <<>> /\ d = DInit(S, FT, Root, Init0)

Small(e) == Len(e.stk) <= MaxFrames /\ Len(e.buf) <= MaxBuf
(* the table of conversions is finite *)
Convertible(e, b) == e.mode = "num" /\ ~NumChar(b[1]) /\ IsNumber(e.buf) => e.buf \in Known

Next == \E k \in 1..Len(Chunks) :
          /\ d.st = "run" /\ Small(d) /\ Len(text) < MaxLen
          /\ Convertible(d, Chunks[k])
          /\ text' = text \o Chunks[k]
          /\ d' = FeedAll(d, Chunks[k])
          /\ LET e == Finish(d')
             IN PrintT("CASE " \o ToJson(<<text', IF e.st = "ok" THEN 1 ELSE 0, e.code, e.el, e.ec, e.res>>))

Spec == Init /\ [][Next]_<<text, d>>

(* Frames below the top only matter by their kind and stage; the top frame
   also by what comes next. *)
Frame(f, top) ==
    IF top THEN CASE f.k = "obj" -> IF f.s \in {"val", "colon"} THEN <<"obj", f.s, f.m, f.i>> ELSE <<"obj", f.s, f.m>>
                  [] f.k = "arr" -> <<"arr", f.s, f.ty.k>>
                  [] OTHER -> <<f.k, f.s>>
    ELSE CASE f.k = "arr" -> <<"arr", f.ty.k>> [] OTHER -> <<f.k>>
Names == {S[m].f[i].n : <<m, i>> \in {<<m, i>> \in (1..Len(S)) \X (1..64) : i <= Len(S[m].f)}}
Buf == CASE d.st # "run" -> <<>>
         [] d.mode = "num" -> <<FoldLeft(NumStep, "start", d.buf), IF Len(d.buf) < 3 THEN Len(d.buf) ELSE 3>>
         [] d.mode = "id" -> d.buf
         [] d.mode \in {"str", "esc", "hex"} -> IF d.buf = <<>> THEN <<"empty">> ELSE IF d.buf \in Names THEN <<"name">> ELSE <<"other">>
         [] OTHER -> <<>>
Hex == IF d.mode # "hex" THEN <<>> ELSE <<d.hn, CASE d.hn = 2 -> IF d.hx < 216 THEN 1 ELSE IF d.hx < 220 THEN 2 ELSE IF d.hx < 224 THEN 3 ELSE 4 [] OTHER -> 0>>
View == <<d.st, d.mode, d.lead # 0, Hex, d.ig, d.code, Buf,
          [i \in 1..Len(d.stk) |-> Frame(d.stk[i], i = Len(d.stk))]>>

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)

Clean(t) == [i \in 1..Len(t) |-> IF t[i] < 32 /\ t[i] # 0 THEN 32 ELSE t[i]]

(* accepted texts are JSON *)
AcceptedIsJson == d.st = "ok" => ReadJson(Clean(text)).st = "ok"
(* a text cut short is never accepted, and its error is inside the text *)
PrefixRejected ==
    d.st = "run" => LET e == Finish(d) IN e.st = "err" /\ e.code # 0 /\ e.el >= 1 /\ e.ec >= 1
(* a text that is JSON and has been read to the end is accepted, or it has a
   value of the wrong kind: never an error of form *)
ErrorIsInside == d.st = "err" => d.code # 0 /\ (d.el < d.l \/ (d.el = d.l /\ d.ec <= d.c))
FormErrors == {E_IGNORE, E_SEPARATOR, E_NAME}
JsonHasNoFormError == d.st = "err" /\ d.code \in FormErrors => ReadJson(Clean(text)).st = "bad"

(* every byte takes the machine one step further, and the end always decides *)
Decides(e) == /\ e.st \in {"run", "ok", "err"}
              /\ \/ e.mode = "num" /\ IsNumber(e.buf) /\ e.buf \notin Known
                 \/ Finish(e).st \in {"ok", "err"}
Total == d.st = "run" => \A b \in 0..255 : Convertible(d, <<b>>) => Decides(FeedAll(d, <<b>>))

(* skipped values change nothing *)
Skipping(e) == e.st = "run" /\ \E i \in 1..Len(e.stk) : e.stk[i].k \in {"iobj", "iarr"}
Held(e) == [i \in {j \in 1..Len(e.stk) : e.stk[j].k \in {"obj", "arr", "root"}} |-> e.stk[i].v]
SkipKeeps == [][Skipping(d) /\ Skipping(d') => Held(d') = Held(d)]_<<text, d>>
=============================================================================
