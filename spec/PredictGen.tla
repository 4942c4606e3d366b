---------------------------- MODULE PredictGen ----------------------------
(* random query histories: method number, sequence of point numbers, form  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NPoints, NMethods, MaxLen
VARIABLES hist, done
Pick(S) == RandomElement(S)
Forms == <<"2d", "2d", "2d", "fortran", "view", "1d", "big">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E k \in {Pick(1..MaxLen)} : \E q \in {Pick([1..k -> 1..NPoints])} : \E m \in {Pick(0..(NMethods-1))} : \E f \in {Pick(1..7)} : \E w \in {Pick(1..12)} :
           hist' = Append(hist, IF w = 1 THEN [op |-> "badwidth", m |-> m, pts |-> q, form |-> "2d"]
                                ELSE [op |-> "query", m |-> m, pts |-> q, form |-> Forms[f]])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
