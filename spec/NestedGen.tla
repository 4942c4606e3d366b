----------------------------- MODULE NestedGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxLev, Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E nx \in {Pick(1..4)} : \E n \in {Pick(1..MaxN)} : \E v \in {Pick(1..MaxLev)} : \E w \in {Pick(1..12)} :
           hist' = Append(hist, [op |-> IF w = 1 THEN "invalid" ELSE "nested", n |-> IF w = 2 THEN 1 ELSE n, nx |-> nx, lev |-> v])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
