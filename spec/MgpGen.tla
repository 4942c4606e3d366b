------------------------------- MODULE MgpGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES mod, hist, done
vars == <<mod, hist, done>>
Pick(S) == RandomElement(S)
Init == mod = [nx |-> 0] /\ hist = <<>> /\ done = FALSE
Choose == mod.nx = 0 /\ \E nx \in {Pick(2..4)} : \E nc \in {Pick(1..2)} : \E p \in {Pick({"constant", "constant", "linear"})} : \E lv \in {Pick(1..4)} : \E rep \in {Pick(1..4)} : \E sd \in {Pick(1..9999)} :
            mod' = [nx |-> nx, nc |-> IF nc < nx THEN nc ELSE 1, poly |-> p, level |-> lv, rep |-> rep, seed |-> sd] /\ UNCHANGED <<hist, done>>
Step == /\ mod.nx # 0 /\ Len(hist) < Depth /\ UNCHANGED <<mod, done>>
        /\ \E o \in {Pick({"values", "variances", "variances", "roundtrip", "slide", "alone", "data", "refused", "retrain"})} : \E m \in {Pick(1..5)} : \E sd \in {Pick(1..9999)} : hist' = Append(hist, [op |-> o, m |-> m, seed |-> sd])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<mod, hist>>
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("BEHAVIOUR " \o ToJson([mod |-> mod, walk |-> hist]))
=============================================================================
