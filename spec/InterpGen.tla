----------------------------- MODULE InterpGen -----------------------------
(* training histories: which data set, how it is scaled, how it is asked   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick(1..8)} : \E d \in {Pick(1..4)} : \E s \in {Pick(1..5)} : \E o \in {Pick(1..3)} : \E k \in {Pick(1..6)} :
           hist' = Append(hist,
              IF hist = <<>> \/ w <= 2 THEN [op |-> "setdata", set |-> d, scale |-> s, offset |-> o]
              ELSE IF hist[Len(hist)].op = "setdata" THEN [op |-> "train"]
              ELSE IF w = 3 THEN [op |-> "updatey", scale |-> s, offset |-> o]
              ELSE IF hist[Len(hist)].op = "updatey" THEN [op |-> "train"]
              ELSE IF w \in {4, 5} THEN [op |-> "askall"]
              ELSE IF w = 6 THEN [op |-> "askperm"] ELSE IF w = 7 THEN [op |-> "askone", i |-> k] ELSE [op |-> "askoff"])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
