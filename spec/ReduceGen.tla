----------------------------- MODULE ReduceGen -----------------------------
(* Random reductions (and reductions of reductions) of benchmark problems.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Names == {"sphere", "rosen", "lp2", "lp3", "tp-cos", "tp-exp", "tp-tanh", "tp-gaussian", "beam", "arm", "branin", "torsion", "water", "waterlf", "welded", "wing"}
Dim(n) == IF n \in {"sphere", "rosen", "lp2", "lp3", "tp-cos", "tp-exp", "tp-tanh", "tp-gaussian"} THEN {2, 3, 4, 6}
          ELSE IF n = "beam" THEN {3, 6, 9} ELSE IF n = "arm" THEN {2, 4, 6, 8} ELSE {0}
Init == hist = <<>> /\ done = FALSE
(* sel is a permutation seed and keep how many variables are kept           *)
One1 == \E n \in {Pick(Names)} : \E d \in {Pick(Dim(n))} : \E s \in {Pick(1..9999)} : \E f \in {Pick({"int", "list", "array", "tuple", "sorted"})} : \E k \in {Pick(1..9)} :
        \E w \in {Pick({-1, 0, 20, 35, 50, 77, 100})} : \E k2 \in {Pick({0, 0, 1, 2})} : \E w2 \in {Pick({10, 60})} : \E c \in {Pick({TRUE, FALSE})} :
          hist' = <<[kind |-> "reduced", name |-> n, dim |-> d, seed |-> s, form |-> f, keep |-> k, w |-> w, again |-> k2, w2 |-> w2, complex |-> c]>>
Wrap == \E n \in {Pick({"nbeam", "narm", "nrosen", "nstep"})} : \E d \in {Pick(1..5)} : \E w \in {Pick({-1, 0, 20, 60, 100})} : \E s \in {Pick(1..9999)} : \E c \in {Pick({TRUE, FALSE})} :
          hist' = <<[kind |-> "wrapper", name |-> n, dim |-> d, w |-> w, seed |-> s, complex |-> c]>>
Step == hist = <<>> /\ done' = TRUE /\ \E z \in {Pick(1..4)} : IF z = 1 THEN Wrap ELSE One1
Next == Step
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist[1]))
=============================================================================
