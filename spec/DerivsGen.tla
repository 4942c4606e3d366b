----------------------------- MODULE DerivsGen -----------------------------
(* which point to differentiate at: its region, its coordinate shared with *)
(* a training point, the direction asked first, and the batch it is in     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Regions == <<"inside", "inside", "inside", "edge", "outside", "far", "data", "shared", "shared", "outside1", "between">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E r \in {Pick(1..11)} : \E s \in {Pick(1..100000)} : \E k \in {Pick(0..3)} : \E b \in {Pick(0..3)} :
           hist' = Append(hist, [where |-> Regions[r], seed |-> s, k |-> k, batch |-> b])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
