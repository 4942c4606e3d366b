------------------------------ MODULE SensGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Regions == <<"inside", "inside", "edge", "outside", "data", "shared", "between", "far">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick(1..10)} : \E r \in {Pick(1..8)} : \E s \in {Pick(1..100000)} : \E k \in {Pick(0..3)} : \E i \in {Pick(0..40)} :
           hist' = Append(hist,
              IF hist = <<>> \/ w = 1 THEN [op |-> "setdata", seed |-> s % 5]
              ELSE IF w = 2 THEN [op |-> "combine", where |-> Regions[r], seed |-> s, k |-> k]
              ELSE [op |-> "sens", where |-> Regions[r], seed |-> s, k |-> k, i |-> i, n |-> 1 + (s % 3)])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
