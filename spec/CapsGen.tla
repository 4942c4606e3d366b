------------------------------ MODULE CapsGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Ops == <<"settd", "updtd", "der", "der", "od", "var", "vd", "train", "flags", "setdata">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick(1..10)} : \E k \in {Pick(0..7)} : \E n \in {Pick(1..4)} : \E s \in {Pick(1..100000)} :
           hist' = Append(hist, [op |-> IF hist = <<>> THEN "flags" ELSE IF Len(hist) = Depth \div 3 THEN "setdata"
                                        ELSE IF Len(hist) = (Depth \div 3) + 1 THEN "train" ELSE Ops[w], k |-> k, n |-> n, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
