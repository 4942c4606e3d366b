------------------------------- MODULE Sens -------------------------------
(* C09.  The derivative of a prediction with respect to one training       *)
(* output is the change of that prediction per unit change of the output.  *)
(* For a model linear in its data these weights recombine to the           *)
(* prediction.  Bounded model: inverse-distance weights on an integer      *)
(* line, every data map, every change.                                     *)
EXTENDS Fx
CONSTANTS Line, Vals

(* d : reported weight; up, dn : changes of the prediction (in units of the *)
(* perturbation) when the training output moves by +1 and -1 perturbation  *)
WeightOk(d, up, dn, tol) == /\ IsNum(d) /\ IsNum(up) /\ IsNum(dn)
                            /\ Abs(2 * (d \div 2) - (up - dn) \div 2) <= tol + 2
Untouched(up, dn, tol) == Near(up, 0, tol) /\ Near(dn, 0, tol)
Combined(sum, pred, tol) == Near(sum, pred, tol)

VARIABLES data, at, i, moved
vars == <<data, at, i, moved>>
Sq(a) == a * a
RECURSIVE Prod(_)
Prod(S) == IF S = {} THEN 1 ELSE LET e == CHOOSE e \in S : TRUE IN e[2] * Prod(S \ {e})
Weight(k) == Prod({<<j, Sq(at - j)>> : j \in DOMAIN data \ {k}})
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + Total(S \ {e}, f)
Num(d) == Total(DOMAIN d, [k \in DOMAIN d |-> Weight(k) * d[k]])
Den == Total(DOMAIN data, [k \in DOMAIN data |-> Weight(k)])
Init == /\ data \in UNION {[D -> Vals] : D \in SUBSET Line \ {{}}}
        /\ at \in Line /\ i \in DOMAIN data /\ moved = 0
Perturb == moved = 0 /\ moved' \in Vals /\ UNCHANGED <<data, at, i>>
Next == Perturb
Spec == Init /\ [][Next]_vars
Sensitivity == Num([data EXCEPT ![i] = @ + moved]) - Num(data) = moved * Weight(i)
Recombines == Num(data) = Total(DOMAIN data, [k \in DOMAIN data |-> Weight(k) * data[k]]) /\ Den > 0
=========================================================================
