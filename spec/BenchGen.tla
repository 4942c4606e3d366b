------------------------------ MODULE BenchGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, prob
Pick(S) == RandomElement(S)
Names == {"sphere", "rosen", "lp1", "lp2", "lp3", "lp5", "tp-cos", "tp-exp", "tp-tanh", "tp-gaussian", "beam", "arm", "branin", "torsion", "water", "waterlf", "welded", "wing",
          "torsion-fd", "water-fd", "waterlf-fd", "welded-fd", "wing-fd"}
Dim(n) == IF n \in {"sphere", "rosen", "lp1", "lp2", "lp3", "lp5", "tp-cos", "tp-exp", "tp-tanh", "tp-gaussian"} THEN {1, 2, 3, 4, 6}
          ELSE IF n = "beam" THEN {3, 6, 9} ELSE IF n = "arm" THEN {2, 4, 6, 8} ELSE {0}
Init == hist = <<>> /\ done = FALSE /\ prob = [name |-> "none"]
Choose == prob.name = "none" /\ \E n \in {Pick(Names)} : \E d \in {Pick(Dim(n))} : \E p \in {Pick(1..3)} : \E c \in {Pick({TRUE, FALSE, FALSE})} : \E a \in {Pick(1..99)} :
            prob' = [name |-> n, dim |-> d, par |-> p, complex |-> c, pick |-> a] /\ hist' = <<>> /\ done' = FALSE
Step == /\ prob.name # "none" /\ Len(hist) < Depth /\ done' = FALSE /\ prob' = prob
        /\ \E w \in {Pick({"inside", "inside", "edge", "zero", "integer", "equal"})} : \E b \in {Pick(1..3)} : \E s \in {Pick(1..9999)} : \E o \in {Pick({"C", "F", "view"})} :
              hist' = Append(hist, [where |-> w, batch |-> b, seed |-> s, order |-> o])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ prob' = prob
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, prob>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([prob |-> prob, walk |-> hist]))
=============================================================================
