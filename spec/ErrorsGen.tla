----------------------------- MODULE ErrorsGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, mod
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ mod = [kind |-> "none"]
Choose == mod.kind = "none" /\ \E k \in {Pick({"stub", "stub", "LS", "QP", "KRG", "IDW", "RBF", "RMTB", "GEKPLS", "GENN"})} : \E nx \in {Pick({1, 2, 3})} : \E ny \in {Pick({1, 1, 2})} : \E s \in {Pick(1..99)} :
            \E d \in {Pick({TRUE, FALSE})} : mod' = [kind |-> k, nx |-> nx, ny |-> ny, seed |-> s, der |-> d] /\ hist' = <<>> /\ done' = FALSE
Step == /\ mod.kind # "none" /\ Len(hist) < Depth /\ done' = FALSE /\ mod' = mod
        /\ \E g \in {Pick({TRUE, TRUE, FALSE})} : \E k \in {Pick({-1, -1, 0, 1, 2})} : \E n \in {Pick({1, 2, 5, 30})} : \E sh \in {Pick({"flat", "col", "row"})} : \E s \in {Pick(1..999)} : \E z \in {Pick({"truth", "random", "exact", "far"})} :
              hist' = Append(hist, [given |-> g, kx |-> k, n |-> n, shape |-> sh, seed |-> s, ref |-> z])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ mod' = mod
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, mod>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([mod |-> mod, walk |-> hist]))
=============================================================================
