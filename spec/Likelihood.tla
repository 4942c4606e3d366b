----------------------------- MODULE Likelihood -----------------------------
(* C34.  Hyperparameter training: the quantity maximised is the reduced     *)
(* likelihood of the declared model, its gradient and Hessian are its       *)
(* derivatives, and the selected hyperparameters respect their bounds and   *)
(* are at least as likely as the starting ones.                             *)
EXTENDS Fx
CONSTANTS NTheta, MaxV, Budget
D == INSTANCE Derivs WITH CoefMax <- 0, Steps <- {}, c <- 0, x <- 0, h <- 0

Within(th, lo, hi, tol) == \A i \in 1..Len(th) : IsNum(th[i]) /\ th[i] >= lo[i] - tol /\ th[i] <= hi[i] + tol
Reported(value, atTheta, tol) == Near(value, atTheta, tol)
NoWorse(value, start, tol) == IsNum(value) /\ (~IsNum(start) \/ value >= start - tol)
SlopesOk(d, q, tol) == Len(d) = Len(q) /\ \A i \in 1..Len(d) : D!Clipped(d[i], q[i]) \/ D!SlopeOk(d[i], q[i], tol)
Symmetric(m, tol) == \A i \in 1..Len(m) : Len(m[i]) = Len(m) /\ \A j \in 1..Len(m) : Near(m[i][j], m[j][i], tol)

(* ---- bounded model: any maximiser that evaluates candidates within the   *)
(* bounds, some of which cannot be evaluated (value -1), restarted when it  *)
(* fails, and that keeps the best value it has seen                         *)
VARIABLES V, start, cur, seen, best, retries
mvars == <<V, start, cur, seen, best, retries>>
Thetas == 1..NTheta
Fail == -1
Init == /\ V \in [Thetas -> {Fail} \cup 0..MaxV] /\ start \in Thetas
        /\ cur = start /\ seen = {start} /\ retries = 0
        /\ best = IF V[start] = Fail THEN 0 ELSE start
Evaluate == /\ Cardinality(seen) < Budget
            /\ \E th \in Thetas \ seen : /\ Abs(th - cur) <= 2
                                        /\ cur' = (IF V[th] >= V[cur] THEN th ELSE cur)
                                        /\ seen' = seen \cup {th}
                                        /\ best' = (IF V[th] # Fail /\ (best = 0 \/ V[th] > V[best]) THEN th ELSE best)
            /\ UNCHANGED <<V, start, retries>>
Restart == retries < 2 /\ V[cur] = Fail /\ retries' = retries + 1 /\ cur' = start /\ UNCHANGED <<V, start, seen, best>>
Next == Evaluate \/ Restart
Spec == Init /\ [][Next]_mvars
BestSeen == best = 0 \/ (best \in seen /\ \A s \in seen : V[s] <= V[best])
AtLeastStart == V[start] # Fail => (best # 0 /\ V[best] >= V[start])
NoneOnlyIfAllFail == best = 0 <=> \A s \in seen : V[s] = Fail
============================================================================
