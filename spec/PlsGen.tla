------------------------------- MODULE PlsGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, mod
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ mod = [kind |-> "none"]
Choose == mod.kind = "none" /\ \E k \in {Pick({"KPLS", "KPLS", "GEKPLS", "GEKPLS ", "GEKPLS  ", "KPLSK", "MFKPLS", "MFKPLS ", "MFKPLSK"})} : \E co \in {Pick({"squar_exp", "abs_exp"})} : \E p \in {Pick({"constant", "constant ", "linear"})} :
            \E nx \in {Pick({2, 3, 4})} : \E nc \in {Pick({1, 2, 3})} : \E ex \in {Pick(0..4)} : \E s \in {Pick(1..999)} : \E idle \in {Pick(0..4)} : \E lev \in {Pick(1..4)} : \E dx \in {Pick(1..3)} :
              mod' = [kind |-> k, corr |-> co, poly |-> p, nx |-> nx, nc |-> nc, extra |-> ex, seed |-> s, idle |-> idle, level |-> lev, step |-> dx] /\ hist' = <<>> /\ done' = FALSE
Step == /\ mod.kind # "none" /\ Len(hist) < Depth /\ done' = FALSE /\ mod' = mod
        /\ \E o \in {Pick({"predict", "predict ", "expand", "expand ", "idle", "weights", "train", "refine"})} : \E s \in {Pick(1..999)} :
              hist' = Append(hist, [op |-> o, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ mod' = mod
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, mod>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([mod |-> mod, walk |-> hist]))
=============================================================================
