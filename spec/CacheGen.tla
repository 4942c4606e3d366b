----------------------------- MODULE CacheGen -----------------------------
(* Random histories: raw cached operations, and models sharing a cache. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES c, ops, done
Pick(S) == RandomElement(S)
Init == c = <<>> /\ ops = <<>> /\ done = FALSE
Choose == /\ c = <<>> /\ ops' = <<>> /\ done' = FALSE
   /\ \E k \in {Pick({"raw", "raw", "RBF", "RMTB", "RMTC", "IDW", "LS", "QP"})} : \E s \in {Pick(1..1000)} : \E f \in {Pick(1..6)} : c' = <<[kind |-> k, seed |-> s, fam |-> f]>>
RawOp == \E o \in {Pick({"run", "run", "run", "run", "nodir", "raise", "crash", "remove", "cut", "junk", "alien"})} : \E i \in {Pick(1..4)} : \E k \in {Pick(0..400)} : ops' = Append(ops, [op |-> o, i |-> i, k |-> k])
ModelOp == \E o \in {Pick({"new", "set", "train", "train", "train", "option", "fault", "energy"})} : \E i \in {Pick(1..3)} : \E k \in {Pick(0..400)} : ops' = Append(ops, [op |-> o, i |-> i, k |-> k])
Op == c # <<>> /\ ~done /\ Len(ops) < MaxOps /\ (IF c[1].kind = "raw" THEN RawOp ELSE ModelOp) /\ UNCHANGED <<c, done>>
Finish == c # <<>> /\ ~done /\ Len(ops) = MaxOps /\ done' = TRUE /\ UNCHANGED <<c, ops>>
Next == Choose \/ Op \/ Finish
Spec == Init /\ [][Next]_<<c, ops, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([c |-> c[1], ops |-> ops]))
=========================================================================
