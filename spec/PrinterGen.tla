---------------------------- MODULE PrinterGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES ops, d, done
Pick(S) == RandomElement(S)
Init == ops = <<>> /\ d = 0 /\ done = FALSE
(* one operation; closing needs an open context, and everything is closed at the end *)
Op == /\ ~done /\ Len(ops) < MaxOps
      /\ \E o \in {Pick({"say", "say", "center", "title", "break", "toggle", "timed", "timed", "quiet", "active", "solver", "close", "raise", "maxdepth"})} :
         \E k \in {Pick(0..3)} : \E w \in {Pick(1..9)} : \E b \in {Pick({TRUE, FALSE})} :
         LET closing == o \in {"close", "raise"} opening == o \in {"timed", "quiet", "active"}
             oo == IF closing /\ d = 0 THEN "say" ELSE IF opening /\ d > 4 THEN "say" ELSE o
         IN /\ ops' = Append(ops, [op |-> oo, k |-> k, w |-> w, b |-> b])
            /\ d' = IF oo \in {"close", "raise"} THEN d - 1 ELSE IF oo \in {"timed", "quiet", "active"} THEN d + 1 ELSE d
      /\ done' = FALSE
Drain == /\ ~done /\ Len(ops) >= MaxOps /\ d > 0
         /\ \E b \in {Pick({"close", "raise"})} : ops' = Append(ops, [op |-> b, k |-> 0, w |-> 1, b |-> TRUE])
         /\ d' = d - 1 /\ done' = FALSE
Finish == ~done /\ Len(ops) >= MaxOps /\ d = 0 /\ done' = TRUE /\ UNCHANGED <<ops, d>>
Next == Op \/ Drain \/ Finish
Spec == Init /\ [][Next]_<<ops, d, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([ops |-> ops]))
=========================================================================
