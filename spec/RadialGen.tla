----------------------------- MODULE RadialGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, mod
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ mod = [kind |-> "none"]
Choose == mod.kind = "none" /\ \E k \in {Pick({"IDW", "RBF", "RBF "})} : \E nx \in {Pick(1..4)} : \E ny \in {Pick({1, 1, 2, 3})} : \E pd \in {Pick({0 - 1, 0, 1})} : \E p \in {Pick(1..7)} :
            \E how \in {Pick({"scalar", "list", "array", "array "})} : \E s \in {Pick(1..999)} : \E reg \in {Pick(1..3)} : \E sz \in {Pick(1..3)} :
              mod' = [kind |-> k, nx |-> nx, ny |-> ny, pd |-> pd, p |-> p, how |-> how, seed |-> s, reg |-> reg, size |-> sz] /\ hist' = <<>> /\ done' = FALSE
Step == /\ mod.kind # "none" /\ Len(hist) < Depth /\ done' = FALSE /\ mod' = mod
        /\ \E o \in {Pick({"value", "value ", "value  ", "slope", "slope ", "sens", "train"})} : \E w \in {Pick({"lattice", "near", "nearer", "far", "data", "between", "batch"})} : \E s \in {Pick(1..999)} :
              hist' = Append(hist, [op |-> o, where |-> w, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ mod' = mod
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, mod>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([mod |-> mod, walk |-> hist]))
=============================================================================
