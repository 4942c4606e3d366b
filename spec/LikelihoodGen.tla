--------------------------- MODULE LikelihoodGen ---------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, mod
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ mod = [kind |-> "none"]
Choose == mod.kind = "none" /\ \E k \in {Pick({"KRG", "KRG", "KRG", "KPLS", "KPLSK", "MGP", "MGP", "GEKPLS"})} : \E co \in {Pick({"squar_exp", "squar_exp", "abs_exp", "matern32", "matern52"})} : \E p \in {Pick({"constant", "constant", "linear", "quadratic"})} :
            \E how \in {Pick({"plain", "plain", "given", "estimated", "perpoint", "repeated"})} : \E op \in {Pick({"Cobyla", "TNC"})} : \E nx \in {Pick({1, 2, 3})} : \E ny \in {Pick({1, 1, 2})} :
            \E lev \in {Pick(1..4)} : \E s \in {Pick(1..99)} : \E rep \in {Pick(1..4)} :
              mod' = [kind |-> k, corr |-> co, poly |-> p, how |-> how, opt |-> op, nx |-> nx, ny |-> ny, level |-> lev, seed |-> s, rep |-> rep] /\ hist' = <<>> /\ done' = FALSE
Step == /\ mod.kind # "none" /\ Len(hist) < Depth /\ done' = FALSE /\ mod' = mod
        /\ \E o \in {Pick({"value", "value", "gradient", "gradient", "hessian", "train"})} : \E s \in {Pick(1..999)} :
              hist' = Append(hist, [op |-> o, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ mod' = mod
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, mod>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([mod |-> mod, walk |-> hist]))
=============================================================================
