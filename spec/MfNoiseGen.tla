----------------------------- MODULE MfNoiseGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, mod
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ mod = [how |-> "none"]
Choose == mod.how = "none" /\ \E h \in {Pick({"given", "single", "perpoint", "repeated", "repeated ", "repeated  ", "estimated", "optim", "optim ", "optimrep"})} : \E co \in {Pick({"squar_exp", "squar_exp ", "abs_exp", "matern32", "matern52"})} :
            \E p \in {Pick({"constant", "constant ", "linear"})} : \E rho \in {Pick({"constant", "constant ", "linear"})} : \E nx \in {Pick({1, 2, 3})} : \E nl \in {Pick({2, 2, 3})} :
            \E s \in {Pick(1..999)} : \E lev \in {Pick(1..4)} : \E th \in {Pick(1..3)} : \E nested \in {Pick({TRUE, FALSE})} : \E op \in {Pick({"Cobyla", "Cobyla ", "TNC"})} :
              mod' = [how |-> h, corr |-> co, poly |-> p, rho |-> rho, nx |-> nx, nl |-> nl, seed |-> s, level |-> lev, th |-> th, nested |-> nested, opt |-> op] /\ hist' = <<>> /\ done' = FALSE
Step == /\ mod.how # "none" /\ Len(hist) < Depth /\ done' = FALSE /\ mod' = mod
        /\ \E o \in {Pick({"predict", "predict ", "levels", "train"})} : \E s \in {Pick(1..999)} :
              hist' = Append(hist, [op |-> o, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ mod' = mod
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, mod>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([mod |-> mod, walk |-> hist]))
=============================================================================
