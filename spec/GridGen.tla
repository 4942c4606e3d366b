------------------------------ MODULE GridGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxW
VARIABLES hist, done
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE
Given == <<"none", "list", "array", "intarray", "intlist">>
Step == /\ Len(hist) < 10 /\ done' = FALSE
        /\ \E nx \in {Pick(1..4)} : \E n \in {Pick(1..MaxN)} : \E g \in {Pick(1..5)} : \E c \in {Pick({TRUE, FALSE})} :
           \E w \in {Pick([1..nx -> 0..MaxW])} : \E z \in {Pick(1..nx)} :
           hist' = Append(hist, [n |-> n, nx |-> nx, given |-> Given[g], clip |-> c,
                                 w |-> IF g = 1 THEN [k \in 1..nx |-> 1] ELSE [w EXCEPT ![z] = @ + 1]])
Finish == Len(hist) = 10 /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
