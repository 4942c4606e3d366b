------------------------------ MODULE EgoGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxIter, MaxPar, NSpecs
VARIABLES c, done
Pick(S) == RandomElement(S)
Init == c = <<>> /\ done = FALSE
Choose == /\ c = <<>> /\ done' = FALSE
   /\ \E it \in {Pick(1..MaxIter)} : \E np \in {Pick(1..MaxPar)} : \E q \in {Pick({"KB", "KBLB", "KBUB", "KBRand", "CLmin"})} :
      \E cr \in {Pick({"EI", "EI", "SBO", "UCB"})} : \E sp \in {Pick(1..NSpecs)} : \E xd \in {Pick({TRUE, TRUE, FALSE})} : \E yd \in {Pick({TRUE, FALSE})} :
      \E tun \in {Pick(1..5)} : \E rs \in {Pick({"none", "int", "obj"})} : \E fl \in {Pick(1..4)} : \E f1 \in {Pick(1..(MaxIter * MaxPar))} :
      \E w \in {Pick(1..3)} : \E mo \in {Pick(1..4)} : \E s \in {Pick(1..1000)} : \E fo \in {Pick(1..3)} :
      c' = <<[iter |-> it, par |-> np, qei |-> q, crit |-> cr, spec |-> sp, xdoe |-> xd, ydoe |-> (xd /\ yd), tunnel |-> (tun = 1), rs |-> rs,
              \* proposal number f1 fails for good (w = 1) or its first round only (w = 2)
              failat |-> IF fl = 1 THEN f1 ELSE 0, failall |-> (w = 1), maxopt |-> IF w = 2 THEN 2 ELSE IF mo = 1 THEN 1 ELSE 5, seed |-> s, form |-> fo]>>
Finish == c # <<>> /\ ~done /\ done' = TRUE /\ c' = c
Next == Choose \/ Finish
Spec == Init /\ [][Next]_<<c, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(c[1]))
=========================================================================
