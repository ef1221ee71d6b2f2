----------------------------- MODULE BindingMC -----------------------------
(***************************************************************************)
(* Exploration of Binding: every order of a few declarations.  Printed     *)
(* cases are given to the real compiler.  With Cfg.given (a list of        *)
(* declaration lists) the machine only reads those.                        *)
(***************************************************************************)
EXTENDS Binding, Json, IOUtils, SequencesExt

Cfg == JsonDeserialize(IOEnv.MC)
Decls == Cfg.decls
Given == Cfg.given
MaxMsgs == Cfg.msgs
MaxPkgs == Cfg.pkgs

VARIABLES ds, b, case

Read(n) == BFeedAll(BInit, n)
Names(x) == [i \in 1..Len(x.msgs) |-> x.msgs[i].n]
Say(k, d, x) == PrintT("CASE " \o ToJson(<<k, d, x.o, Meaning(x), SetToSeq(Hidden(x))>>))

Init == IF Given # <<>> THEN \E k \in 1..Len(Given) : case = k /\ ds = Given[k] /\ b = Read(Given[k]) /\ Say(k, <<>>, b)
        ELSE case = 0 /\ ds = <<>> /\ b = BInit

Count(k) == Cardinality({i \in 1..Len(ds) : Decls[ds[i]].d = k})
May(d) == CASE d.d = "opt" -> b.o[d.o] = 0
            [] d.d = "pkg" -> Count("pkg") < MaxPkgs /\ b.pkg # d.p
            [] d.d = "msg" -> /\ Len(b.msgs) < MaxMsgs
                              /\ \A i \in 1..Len(b.msgs) : b.msgs[i].n # d.n
                              /\ \A j \in 1..Len(d.f) : d.f[j].t = "message" => d.f[j].m <= Len(b.msgs)

Next == /\ Given = <<>>
        /\ \E i \in 1..Len(Decls) :
             /\ May(Decls[i])
             /\ ds' = Append(ds, i)
             /\ b' = BFeed(b, Decls[i])
             /\ Say(0, ds', b')
        /\ UNCHANGED case
Spec == Init /\ [][Next]_<<ds, b, case>>

View == <<b, case, IF Cfg.paths = 1 THEN ds ELSE <<>>>>

(* the position of an option does not matter: reading the options first is the same *)
IsOpt(i) == Decls[i].d = "opt"
OptionsFirst == SelectSeq(ds, IsOpt) \o SelectSeq(ds, LAMBDA i : ~IsOpt(i))
OptionsLast == SelectSeq(ds, LAMBDA i : ~IsOpt(i)) \o SelectSeq(ds, IsOpt)
Same(order) == LET x == Read([i \in 1..Len(order) |-> Decls[order[i]]]) IN Meaning(x) = Meaning(b) /\ Hidden(x) = Hidden(b)
Anywhere == Given = <<>> => Same(OptionsFirst) /\ Same(OptionsLast)

(* an option set to false is an option not set *)
FalseIsOff == Given = <<>> => Same(SelectSeq(ds, LAMBDA i : ~(IsOpt(i) /\ Decls[i].v = 0)))

(* each option changes what it documents and nothing else *)
With(x, o, v) == [x EXCEPT !.o[o] = v]
Effect ==
    \A o \in FileOptions :
      LET on == With(b, o, 2) off == With(b, o, 0) m1 == Meaning(on) m0 == Meaning(off)
      IN \A i \in 1..Len(m0) :
           /\ m1[i].cls = m0[i].cls
           /\ \A j \in 1..Len(m0[i].f) :
                LET x == m1[i].f[j] y == m0[i].f[j]
                IN /\ x.k = y.k /\ x.r = y.r /\ x.t = y.t /\ x.m = y.m
                   /\ (o # "number_names" => x.n = y.n)
                   /\ (o # "cpp_use_lists" => x.cpp = y.cpp)
                   /\ x.cpp.e = y.cpp.e
                   /\ (y.r = 0 => x.cpp = y.cpp)

(* a package reaches the messages after it only *)
Scoped == \A i \in 1..Len(b.msgs) :
            LET at == CHOOSE k \in 1..Len(ds) : Decls[ds[k]].d = "msg" /\ Decls[ds[k]].n = b.msgs[i].n
                ps == {k \in 1..(at - 1) : Decls[ds[k]].d = "pkg"}
            IN Given = <<>> => b.msgs[i].p = (IF ps = {} THEN <<>> ELSE Decls[ds[CHOOSE k \in ps : \A q \in ps : q <= k]].p)
=============================================================================
