---------------------------- MODULE IsolateGen ----------------------------
(* random programs over a few objects; twin: the second object is of the   *)
(* class of the first                                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NKinds, NObjs
VARIABLES c, hist, done
Set(i, v, d) == [op |-> "set", i |-> i, v |-> v, d |-> d]
O(op, i, v) == [op |-> op, i |-> i, v |-> v, d |-> 0]
(* programs in which one object is asked after its neighbour, or its copy,  *)
(* was given something else                                                 *)
Weave(shape, v, w, d, a, o) ==
  CASE shape = 1 -> <<Set(1, v, d), O("train", 1, 0), Set(2, w, 3 - d), O("train", 2, 0)>> \o [q \in 1..3 |-> O("ask", 1, q)] \o [q \in 1..3 |-> O("ask", 2, q)]
    [] shape = 2 -> <<Set(1, v, d), O("opt", 1, o), Set(2, w, d), O("train", 2, 0), O("train", 1, 0), O("ask", 2, a), O("ask", 1, a), Set(1, w, 3 - d), O("ask", 1, a), O("ask", 2, a), O("train", 1, 0), O("ask", 2, a), O("ask", 1, a)>>
    [] shape = 3 -> <<Set(1, v, d), O("train", 1, 0), O("copy", 1, 2), O("ask", 2, a), Set(2, w, 3 - d), O("opt", 2, o), O("train", 2, 0)>> \o [q \in 1..3 |-> O("ask", 1, q)] \o <<O("ask", 2, a), O("train", 1, 0), O("ask", 1, a), O("ask", 2, a)>>
    [] shape = 4 -> <<O("opt", 1, o), Set(1, v, d), O("train", 1, 0), O("new", 2, 0), Set(2, w, d), O("train", 2, 0), O("ask", 2, a), O("new", 1, 0), Set(1, w, d), O("train", 1, 0), O("ask", 2, a), O("ask", 1, a)>>
    [] OTHER -> <<>>
Pick(S) == RandomElement(S)
Init == c = <<>> /\ hist = <<>> /\ done = FALSE
Choose == /\ c = <<>> /\ UNCHANGED <<hist, done>>
          /\ \E k1 \in {Pick(1..NKinds)} : \E k2 \in {Pick(1..NKinds)} : \E k3 \in {Pick(1..NKinds)} : \E tw \in {Pick(1..3)} : \E sh \in {Pick({TRUE, FALSE})} :
             \E mode \in {Pick({"steps", "steps ", "steps  ", "threads"})} : \E s \in {Pick(1..1000)} :
             c' = <<[kinds |-> <<k1, IF tw # 1 THEN k1 ELSE k2, IF tw = 3 THEN k1 ELSE k3>>, shared |-> sh, mode |-> mode, seed |-> s]>>
Start == /\ c # <<>> /\ hist = <<>> /\ UNCHANGED <<c, done>>
         /\ \E sh \in {Pick(1..4)} : \E v \in {Pick(1..3)} : \E w \in {Pick(1..3)} : \E d \in {Pick(1..2)} : \E a \in {Pick(1..3)} : \E o \in {Pick(1..3)} :
            hist' = Weave(sh, v, w, d, a, o)
Step == /\ c # <<>> /\ hist # <<>> /\ Len(hist) < Depth /\ UNCHANGED <<c, done>>
        /\ \E w \in {Pick(1..12)} : \E i \in {Pick(1..NObjs)} : \E j \in {Pick(1..NObjs)} : \E v \in {Pick(1..3)} : \E d \in {Pick(1..2)} : \E a \in {Pick(1..3)} :
           hist' = Append(hist, CASE w <= 2 -> [op |-> "set", i |-> i, v |-> v, d |-> d]
                                  [] w = 3 -> [op |-> "opt", i |-> i, v |-> a, d |-> d]
                                  [] w \in 4..6 -> [op |-> "train", i |-> i, v |-> 0, d |-> 0]
                                  [] w = 7 /\ i # j -> [op |-> "copy", i |-> i, v |-> j, d |-> 0]
                                  [] w = 8 -> [op |-> "new", i |-> i, v |-> 0, d |-> 0]
                                  [] OTHER -> [op |-> "ask", i |-> i, v |-> a, d |-> 0])
Finish == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, hist>>
Next == Choose \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_<<c, hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([c |-> c[1], ops |-> hist]))
===========================================================================
