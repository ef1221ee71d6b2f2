------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Message objects as values: a store of three objects of one message type *)
(* and the operations a program can do with them.  An operation is         *)
(* <<op, a, b, f, val>> with objects and fields counted from 0.            *)
(***************************************************************************)
EXTENDS Encoder

O_SET == 0           \* assign to (or, with <<>>, clear) a field
O_CLEARFIELD == 1
O_ASSIGN == 2        \* a = b
O_SWAP == 3
O_CLEAR == 4
O_COPY == 5          \* a becomes a new object made from b
O_MOVE == 6          \* a becomes a new object made from the temporary b; b is renewed
O_FIELDASSIGN == 7   \* a.f = b.f
O_FIELDSWAP == 8
O_SETOTHER == 9      \* assign to a field by other operators
O_MOVEASSIGN == 10
O_READ == 11         \* deserialise val into a
O_BUILD == 12        \* assign a whole value
O_NATIVE == 13       \* a.f = the content of b.f (as text, number, ...), if it has one

DefField(S, m, i) == DefMsg(S, m)[i]

Apply(S, FT, m, objs, e) ==
    LET op == e[1]
        a == e[2] + 1
        b == e[3] + 1
        f == e[4] + 1
    IN CASE op \in {O_SET, O_SETOTHER} -> [objs EXCEPT ![a][f] = e[5]]
         [] op = O_CLEARFIELD -> [objs EXCEPT ![a][f] = DefField(S, m, f)]
         [] op \in {O_ASSIGN, O_COPY} -> [objs EXCEPT ![a] = objs[b]]
         [] op = O_SWAP -> [objs EXCEPT ![a] = objs[b], ![b] = objs[a]]
         [] op = O_CLEAR -> [objs EXCEPT ![a] = DefMsg(S, m)]
         [] op \in {O_MOVE, O_MOVEASSIGN} ->
              IF a = b THEN objs ELSE [objs EXCEPT ![a] = objs[b], ![b] = DefMsg(S, m)]
         [] op = O_FIELDASSIGN -> [objs EXCEPT ![a][f] = objs[b][f]]
         [] op = O_NATIVE ->
              IF S[m].f[f].r = 0 /\ S[m].f[f].k \notin {"msg", "bytes"} /\ objs[b][f] = <<>> THEN objs
              ELSE [objs EXCEPT ![a][f] = objs[b][f]]
         [] op = O_FIELDSWAP -> [objs EXCEPT ![a][f] = objs[b][f], ![b][f] = objs[a][f]]
         [] op = O_READ -> [objs EXCEPT ![a] = Decode(S, FT, [k |-> "msg", r |-> 0, m |-> m], objs[a], e[5]).res]
         [] op = O_BUILD -> [objs EXCEPT ![a] = e[5]]

Start(S, m) == [j \in 1..3 |-> DefMsg(S, m)]

(* what a program can observe: the values, empty() of each object, and the
   comparison of each pair (in all its forms, for objects and fields, with
   objects and plain values, which have to agree) *)
Bit(p) == IF p THEN 1 ELSE 0
Observed(S, m, objs) ==
    [v |-> objs,
     e |-> [j \in 1..3 |-> Bit(EmptyMsg(S, m, objs[j]))],
     q |-> [k \in 1..9 |-> Bit(objs[(k - 1) \div 3 + 1] = objs[((k - 1) % 3) + 1])]]

(* number of the first step whose observation differs, 0 if none *)
FirstDifference(S, FT, m, script, obs) ==
    FoldLeft(LAMBDA st, n :
               IF st.bad # 0 THEN st
               ELSE LET o == Apply(S, FT, m, st.objs, script[n])
                    IN IF n <= Len(obs) /\ obs[n] = Observed(S, m, o) THEN [st EXCEPT !.objs = o]
                       ELSE [st EXCEPT !.bad = n, !.objs = o],
             [bad |-> 0, objs |-> Start(S, m)], [n \in 1..Len(script) |-> n])
=============================================================================
