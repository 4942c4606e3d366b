---------------------------- MODULE VarianceGen ----------------------------
(* histories: train at an output scale 2^k, ask at training points and at  *)
(* points of every region, ask for slopes, train again at another scale    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Regions == <<"inside", "inside", "edge", "outside", "far", "data", "shared", "between", "outside1", "inside">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick(1..12)} : \E r \in {Pick(1..10)} : \E s \in {Pick(1..100000)} : \E k \in {Pick(0..3)} : \E a \in {Pick(0..4)} :
           hist' = Append(hist,
              IF hist = <<>> \/ w = 1 THEN [op |-> "train", pow |-> a]
              ELSE IF w \in 2..3 THEN [op |-> "atdata", seed |-> s]
              ELSE IF w = 4 THEN [op |-> "repeat"]
              ELSE IF w \in 5..8 THEN [op |-> "slope", where |-> Regions[r], seed |-> s, k |-> k]
              ELSE [op |-> "ask", where |-> Regions[r], seed |-> s, k |-> k])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
