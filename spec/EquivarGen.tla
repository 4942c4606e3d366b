----------------------------- MODULE EquivarGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick({"rows", "outputs", "inputs", "outaffine", "outaffine", "inaffine", "inaffine"})} : \E j \in {Pick(1..12)} : \E p \in {Pick({-2, -1, 0, 1, 2})} :
           \E s \in {Pick({1, 1, -1})} : \E b \in {Pick(-3..3)} : \E sd \in {Pick(1..999)} :
              hist' = Append(hist, [what |-> w, j |-> j, p |-> p, s |-> s, b |-> b, seed |-> sd])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([walk |-> hist]))
=============================================================================
