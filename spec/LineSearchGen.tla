--------------------------- MODULE LineSearchGen ---------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Algs == <<"null", "backtracking", "backtracking", "bracketed", "bracketed", "quadratic", "quadratic", "cubic", "cubic">>
Funs == <<"quad", "illquad", "quartic", "rosen", "logcosh", "bumpy", "wall", "linwall", "flat", "cubicish", "exp", "hyper">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E a \in {Pick(1..9)} : \E f \in {Pick(1..12)} : \E n \in {Pick(1..4)} : \E u \in {Pick({10000, 100, 10})} : \E v \in {Pick({900, 500, 150})} :
           \E a0 \in {Pick(-3..2)} : \E d \in {Pick({"grad", "unit", "scaled", "other"})} : \E p \in {Pick({"far", "near", "mid"})} : \E s \in {Pick(1..999)} : \E z \in {Pick({0, 0, 1})} :
           hist' = Append(hist, [alg |-> Algs[a], fun |-> Funs[f], n |-> n, k1 |-> u, u2 |-> v, a0 |-> a0, dir |-> d, pos |-> p, seed |-> s, default |-> z])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
