------------------------------ MODULE LhsGen ------------------------------
(* random histories of sampling calls on a few samplers *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, MaxN
VARIABLES hist, done
Pick(S) == RandomElement(S)
Crit == <<"center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese", "ese", "random">>
Srcs == <<"int", "int", "obj", "obj", "none">>
Init == hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick(1..10)} : \E c \in {Pick(1..11)} : \E s \in {Pick(1..5)} : \E n \in {Pick(1..MaxN)} : \E d \in {Pick(1..3)} : \E z \in {Pick(1..4)} :
           hist' = Append(hist, IF w = 1 THEN [op |-> "seedglobal", seed |-> z]
                           ELSE IF w = 2 /\ hist # <<>> THEN hist[Pick(1..Len(hist))]
                           ELSE [op |-> "sample", crit |-> Crit[c], src |-> IF Crit[c] = "random" THEN "glob" ELSE Srcs[s],
                                 n |-> IF w = 3 THEN Pick({1, 2, 3}) ELSE n, nx |-> d, seed |-> z])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
