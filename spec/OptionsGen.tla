--------------------------- MODULE OptionsGen ---------------------------
(* Random behaviours of Options (tlc -simulate): one operation per step,   *)
(* its kind drawn with weights, printed as JSON when Depth is reached.     *)
EXTENDS Options, Json
CONSTANT Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Keys == UNION {{f \in [1..m -> Names] : \A i, j \in 1..m : i # j => f[i] # f[j]} : m \in 1..MaxUpd}

GInit == Init /\ hist = <<>> /\ done = FALSE
Do(e) == s' = Step(s, e).st /\ hist' = Append(hist, e)
GStep == /\ Len(hist) < Depth
         /\ done' = FALSE
         /\ \E kind \in {Pick(1..12)} : \E k \in {Pick(Objs(s))} : \E n \in {Pick(Names)} : \E v \in {Pick(ValIds)} :
            \/ /\ kind <= 2
               /\ \E r \in {Pick(RuleIds)} :
                    Do([op |-> "declare", k |-> k, n |-> n, rule |-> r, v |-> IF Valid(r, v) THEN v ELSE "none"])
            \/ kind \in 3..7 /\ Do([op |-> "set", k |-> k, n |-> n, v |-> v])
            \/ kind = 8 /\ Do([op |-> "get", k |-> k, n |-> n])
            \/ /\ kind \in 9..11
               /\ \E f \in {Pick(Keys)} :
                    Do([op |-> "update", k |-> k, kvs |-> [i \in DOMAIN f |-> [n |-> f[i], v |-> Pick(ValIds)]]])
            \/ kind = 12 /\ Do([op |-> "clone"])
GDone == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<s, hist>>
GNext == GStep \/ GDone
GSpec == GInit /\ [][GNext]_<<s, hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
