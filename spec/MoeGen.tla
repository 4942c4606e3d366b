------------------------------ MODULE MoeGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NFun
VARIABLES c, done
Pick(S) == RandomElement(S)
Kinds == {"KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW", "RMTB", "RMTC", "GEKPLS", "MGP"}
Cheap == {"LS", "QP", "RBF", "IDW", "KRG"}
Init == c = <<>> /\ done = FALSE
Choose == /\ c = <<>> /\ done' = FALSE
   /\ \E nc \in {Pick(1..4)} : \E sm \in {Pick(1..3)} : \E hv \in {Pick({TRUE, FALSE})} : \E var \in {Pick({TRUE, FALSE})} : \E der \in {Pick({TRUE, FALSE})} :
      \E a \in {Pick({s \in SUBSET Cheap : s # {}})} : \E d \in {Pick({{}, {"KRG"}, {"LS", "RMTB"}, {"IDW", "QP", "GEKPLS"}})} :
      \E wa \in {Pick(SUBSET Kinds)} : \E wd \in {Pick(SUBSET Kinds)} :
      \E f \in {Pick(1..NFun)} : \E nx \in {Pick(1..3)} : \E via \in {Pick({"set", "options", "wrapper"})} : \E test \in {Pick(1..3)} : \E ct \in {Pick(1..4)} :
      \E s \in {Pick(1..1000)} :
      c' = <<[nc |-> nc, smooth |-> (sm # 1), heavi |-> hv, var |-> var, der |-> der, allow |-> IF var THEN a \cup {"KRG"} ELSE a, deny |-> IF var THEN d \ {"KRG"} ELSE d,
              wallow |-> wa, wdeny |-> wd, f |-> f, nx |-> nx, via |-> via, test |-> (test = 1), ct |-> (ct = 1), seed |-> s]>>
Finish == c # <<>> /\ ~done /\ done' = TRUE /\ c' = c
Next == Choose \/ Finish
Spec == Init /\ [][Next]_<<c, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(c[1]))
=========================================================================
