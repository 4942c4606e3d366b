-------------------------------- MODULE Pls --------------------------------
(* C36.  Kriging through partial least squares.  The inputs are seen through *)
(* a few directions learned from the data:                                   *)
(*   - the first direction is that of the covariances with the output, and   *)
(*     its weights enter the correlation as w^2 (or |w|), scaled by theta;   *)
(*   - with training derivatives the directions are those of the first-order *)
(*     expansions, averaged over the points, and `extra_points' first-order  *)
(*     points are added per training point, in its most influential inputs;  *)
(*   - in a multi-fidelity model they come from the highest-fidelity data;   *)
(*   - KPLSK refines, in all inputs, the hyperparameters found this way.     *)
EXTENDS Fx
CONSTANTS G, W, MaxExtra

(* w is parallel to the covariances c up to signs *)
Parallel(w, c, tol) == \A i, j \in 1..Len(w) : Near(Mul(Abs(w[i]), Abs(c[j])), Mul(Abs(w[j]), Abs(c[i])), tol)
SumSq(w) == SumSeq([i \in 1..Len(w) |-> Mul(w[i], w[i])])
UnitLength(w, tol) == Near(SumSq(w), One, tol)
(* sets of e inputs none of the others is more influential than (up to tol) *)
TopSets(infl, e, tol) == {S \in SUBSET (1..Len(infl)) : Cardinality(S) = e /\ \A i \in S, j \in (1..Len(infl)) \ S : Abs(infl[i]) + tol >= Abs(infl[j])}
(* some choice of the e most influential inputs has its first-order points reproduced *)
Enriched(infl, e, fits, tol) == \E S \in TopSets(infl, e, tol) : \A i \in S : fits[i]

(* ---- bounded model: a training point, gradient g, ranges W: first-order  *)
(* points are added one after the other in the largest of the inputs left   *)
VARIABLES g, r, e, added
mvars == <<g, r, e, added>>
Influence == [i \in 1..Len(g) |-> g[i] * r[i]]
Init == g \in [1..3 -> {v - 2 : v \in G}] /\ r \in [1..3 -> W] /\ e \in 0..MaxExtra /\ added = {}
Add == Cardinality(added) < e /\ \E i \in (1..3) \ added :
         /\ \A j \in (1..3) \ added : Abs(Influence[i]) >= Abs(Influence[j])
         /\ added' = added \cup {i} /\ UNCHANGED <<g, r, e>>
Next == Add
Spec == Init /\ [][Next]_mvars
GreedyIsTop == added \in TopSets(Influence, Cardinality(added), 0)
(* an input without influence is used only once all the others are *)
IdleLast == (\E i \in added : g[i] = 0) => \A j \in 1..3 : g[j] # 0 => j \in added
EnoughPoints == Cardinality(added) <= e /\ (~ENABLED Add => Cardinality(added) = e)
(* the two-level designs of the expansions are balanced, so that covariances *)
(* over them are proportional to the influences                              *)
Signs == {-1, 0, 1}
Full == {<<a, b, c>> : a \in Signs, b \in Signs, c \in Signs}
RECURSIVE Total(_, _)
Total(S, k) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE
    IN s[k] * (Influence[1] * s[1] + Influence[2] * s[2] + Influence[3] * s[3]) + Total(S \ {s}, k)
Edges == {s \in Full : Cardinality({k \in 1..3 : s[k] = 0}) = 1}
Balanced == \A k \in 1..3 : Total(Full, k) = 18 * Influence[k] /\ Total(Edges, k) = 8 * Influence[k]
=============================================================================
