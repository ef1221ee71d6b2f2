------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* What an operation that does not succeed leaves behind.  The decoder     *)
(* machine of Decoder can be stopped after any byte: by an error in the    *)
(* text, by the end of the text, by a stream that gives no more or by the  *)
(* lack of memory.  Collapse(d) is the value the object would have if      *)
(* everything read up to there had been stored.  The object may lag behind *)
(* it, but it holds nothing else: Explained(.., old, new, obs).            *)
(***************************************************************************)
EXTENDS Encoder

(* the frames from the top to the bottom, each put into the one below;
   skipped values have no frame of their own in the value *)
Collapse(d) ==
    IF d.st = "ok" THEN d.res
    ELSE LET F == SelectSeq(d.stk, LAMBDA f : f.k \in {"root", "obj", "arr"})
             n == Len(F)
             into(f, v) == CASE f.k = "root" -> v
                             [] f.k = "obj" -> [f.v EXCEPT ![f.i] = v]
                             [] f.k = "arr" -> Append(f.v, v)
         IN FoldLeft(LAMBDA v, j : into(F[n - j], v), F[n].v, [j \in 1..(n - 1) |-> j])

IsPart(x, y) == Len(x) <= Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i]

(* weak: the operation was stopped in the middle of storing a value *)
RECURSIVE ExplainedVal(_, _, _, _, _, _)
ExplainedMsg(S, m, weak, old, new, obs) ==
    Len(obs) = Len(old) /\ \A i \in 1..Len(old) : ExplainedVal(S, S[m].f[i], weak, old[i], new[i], obs[i])
ExplainedElem(S, ty, weak, new, obs) ==
    obs = new \/ (ty.k = "msg" /\ ExplainedMsg(S, ty.m, weak, DefMsg(S, ty.m), new, obs))
ExplainedVal(S, ty, weak, old, new, obs) ==
    IF ty.r = 1
    THEN (* what was there, and then some of what was read *)
         /\ IsPart(old, obs) /\ Len(obs) <= Len(new)
         /\ \A i \in (Len(old) + 1)..Len(obs) :
               obs[i] = new[i] \/ (i = Len(obs) /\ ExplainedElem(S, ty, weak, new[i], obs[i]))
    ELSE IF ty.k = "msg" THEN ExplainedMsg(S, ty.m, weak, old, new, obs)
    ELSE \/ obs = old \/ obs = new
         \/ weak /\ new # old /\ ty.k = "str" /\ obs \in {<<>>, << <<>> >>}
         \/ weak /\ new # old /\ ty.k = "bytes" /\ IsPart(obs, new)

Explained(S, root, weak, old, new, obs) ==
    IF root.r = 1 THEN ExplainedVal(S, root, weak, old, new, obs) ELSE ExplainedMsg(S, root.m, weak, old, new, obs)

(* machine states after 0, 1, 2... bytes *)
States(S, FT, root, init, text) ==
    FoldLeft(LAMBDA ds, b : Append(ds, Feed(ds[Len(ds)], b)), <<DInit(S, FT, root, init)>>, text)

(* is x a value of the schema?  an object left by a failure is one like any other *)
RECURSIVE IsMsg(_, _, _)
IsBytes(x) == \A i \in 1..Len(x) : x[i] \in 0..255
IsScalar(ty, x) ==
    CASE ty.k \in IntKinds -> IsNumber(x) /\ CanonInt(x) = x /\ InRange(ty.k, x)
      [] ty.k = "f32" -> Len(x) = 4 /\ IsBytes(x)
      [] ty.k = "f64" -> Len(x) = 8 /\ IsBytes(x)
      [] ty.k = "bool" -> x \in {0, 1}
      [] OTHER -> IsBytes(x)
IsElem(S, ty, x) ==
    CASE ty.k = "msg" -> IsMsg(S, ty.m, x)
      [] ty.k = "str" -> x = <<>> \/ (Len(x) = 1 /\ IsScalar(ty, x[1]))
      [] OTHER -> IsScalar(ty, x)
IsField(S, ty, x) ==
    IF ty.r = 1 THEN \A i \in 1..Len(x) : IsElem(S, ty, x[i])
    ELSE CASE ty.k = "msg" -> IsMsg(S, ty.m, x)
           [] ty.k = "bytes" -> IsScalar(ty, x)
           [] OTHER -> x = <<>> \/ (Len(x) = 1 /\ IsScalar(ty, x[1]))
IsMsg(S, m, x) == Len(x) = Len(S[m].f) /\ \A i \in 1..Len(x) : IsField(S, S[m].f[i], x[i])
=============================================================================
