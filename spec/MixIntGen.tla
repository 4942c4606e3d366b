---------------------------- MODULE MixIntGen ----------------------------
(* random mixed specifications and points (quarter steps, so that every     *)
(* tie of weights and every half-integer occurs)                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxVars, MaxLev, NPts
VARIABLES types, lo, len, pts, done
Pick(S) == RandomElement(S)
Kinds == <<"F", "I", "I", "E", "E", "E">>
RECURSIVE Dim(_)
Dim(ts) == IF ts = <<>> THEN 0 ELSE (IF ts[1].t = "E" THEN ts[1].k ELSE 1) + Dim(Tail(ts))
Init == types = <<>> /\ lo = <<>> /\ len = 0 /\ pts = <<>> /\ done = FALSE
Start == /\ len = 0 /\ \E n \in {Pick(1..MaxVars)} : len' = n
         /\ UNCHANGED <<types, lo, pts, done>>
AddVar == /\ len > 0 /\ Len(types) < len
          /\ \E w \in {Pick(1..6)} : \E k \in {Pick(1..MaxLev)} : \E l \in {Pick(0..6)} : \E h \in {Pick(1..5)} :
             /\ types' = Append(types, [t |-> Kinds[w], k |-> IF Kinds[w] = "E" THEN k ELSE 1])
             /\ lo' = Append(lo, <<l - 3, l - 3 + h>>)
          /\ UNCHANGED <<len, pts, done>>
AddPt == /\ len > 0 /\ Len(types) = len /\ Len(pts) < NPts
         /\ \E p \in {Pick([1..Dim(types) -> 0..20])} : pts' = Append(pts, p)
         /\ UNCHANGED <<types, lo, len, done>>
Finish == Len(pts) = NPts /\ ~done /\ done' = TRUE /\ UNCHANGED <<types, lo, len, pts>>
Next == Start \/ AddVar \/ AddPt \/ Finish
Spec == Init /\ [][Next]_<<types, lo, len, pts, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([types |-> types, lim |-> lo, pts |-> pts]))
=========================================================================
