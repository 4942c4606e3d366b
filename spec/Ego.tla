------------------------------- MODULE Ego -------------------------------
(* C16/C17.  Efficient global optimisation.  The data are the initial       *)
(* design followed by evaluated points; within an iteration points are       *)
(* proposed one by one and carry a virtual value until they are all          *)
(* evaluated.  A proposal can fail (no internal optimisation succeeded): the *)
(* iteration then evaluates what it has so far.                              *)
EXTENDS Fx
CONSTANTS Points, NDoe, NIter, NPar, Values

(* the virtual value of a pending point *)
Virtual(strategy, y, mean, sd, ymin, tol) ==
    CASE strategy = "KB" -> Near(y, mean, tol)
      [] strategy = "KBUB" -> Near(y, mean + 3 * sd, tol)
      [] strategy = "KBLB" -> Near(y, mean - 3 * sd, tol)
      [] strategy = "KBRand" -> IF sd <= 1 THEN Near(y, mean, 6 * tol) ELSE Abs(y - mean) <= 7 * sd + tol
      [] strategy = "CLmin" -> Near(y, ymin, tol)

(* ---- bounded model *)
VARIABLES f, data, prop, iter
vars == <<f, data, prop, iter>>
Init == /\ f \in [Points -> Values]
        /\ \E d \in [1..NDoe -> Points] : data = [k \in 1..NDoe |-> [x |-> d[k], y |-> f[d[k]], real |-> TRUE]]
        /\ prop = 0 /\ iter = 0
Propose == /\ iter < NIter /\ prop < NPar
           /\ \E x \in Points, v \in Values : data' = Append(data, [x |-> x, y |-> v, real |-> FALSE])
           /\ prop' = prop + 1 /\ UNCHANGED <<f, iter>>
EvaluatePending == data' = [k \in 1..Len(data) |-> IF data[k].real THEN data[k] ELSE [x |-> data[k].x, y |-> f[data[k].x], real |-> TRUE]]
Finish == /\ iter < NIter /\ prop = NPar /\ EvaluatePending /\ prop' = 0 /\ iter' = iter + 1 /\ f' = f
Fail == /\ iter < NIter /\ prop < NPar /\ EvaluatePending /\ prop' = 0 /\ iter' = iter + 1 /\ f' = f
Next == Propose \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Best == CHOOSE k \in 1..Len(data) : \A j \in 1..Len(data) : data[k].y <= data[j].y
TrueValues == \A k \in 1..Len(data) : data[k].real => data[k].y = f[data[k].x]
NoVirtualLeft == iter = NIter => /\ \A k \in 1..Len(data) : data[k].real
                                 /\ data[Best].y = f[data[Best].x] /\ \A k \in 1..Len(data) : f[data[Best].x] <= f[data[k].x]
VirtualIsTail == \A k \in 1..Len(data) : ~data[k].real <=> k > Len(data) - prop
Size == Len(data) <= NDoe + iter * NPar + prop
Ends == <>(iter = NIter)
=========================================================================
