------------------------------ MODULE MfkGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES c, ops, done
Pick(S) == RandomElement(S)
Init == c = <<>> /\ ops = <<>> /\ done = FALSE
Choose == /\ c = <<>> /\ done' = FALSE
   /\ \E k \in {Pick({"MFK", "MFK", "MFKPLS", "MFKPLSK"})} : \E co \in {Pick({"squar_exp", "abs_exp", "matern52", "matern32"})} : \E po \in {Pick({"constant", "linear"})} :
      \E rr \in {Pick({"constant", "linear", "quadratic"})} : \E nx \in {Pick(1..3)} : \E nc \in {Pick(1..2)} : \E s \in {Pick(1..1000)} : \E th \in {Pick({20, 50, 120})} : \E pin \in {Pick({TRUE, FALSE})} :
      /\ c' = <<[kind |-> k, corr |-> IF k = "MFK" THEN co ELSE IF k = "MFKPLS" /\ co # "squar_exp" THEN "abs_exp" ELSE "squar_exp",
                 poly |-> po, rho |-> rr, nx |-> IF k # "MFK" /\ nx < nc THEN nc ELSE nx, nc |-> nc, seed |-> s, theta |-> th, pin |-> pin]>>
      /\ \E lv \in {Pick(0..2)} :
         ops' = (IF lv > 0 THEN <<[op |-> "low", i |-> 0, v |-> 1]>> ELSE <<>>) \o (IF lv > 1 THEN <<[op |-> "low", i |-> 1, v |-> 1]>> ELSE <<>>)
                 \o <<[op |-> "top", i |-> 0, v |-> 1], [op |-> "train", i |-> 0, v |-> 0]>>
Op == /\ c # <<>> /\ ~done /\ Len(ops) < MaxOps
      /\ \E o \in {Pick({"low", "low", "top", "train", "train", "query", "query"})} : \E i \in {Pick(0..1)} : \E v \in {Pick(1..3)} : ops' = Append(ops, [op |-> o, i |-> i, v |-> v])
      /\ UNCHANGED <<c, done>>
Finish == c # <<>> /\ ~done /\ Len(ops) >= MaxOps /\ done' = TRUE /\ UNCHANGED <<c, ops>>
Next == Choose \/ Op \/ Finish
Spec == Init /\ [][Next]_<<c, ops, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([c |-> c[1], ops |-> ops]))
=========================================================================
