------------------------------ MODULE MfNoise ------------------------------
(* C38.  Noise in multi-fidelity kriging: each level carries its own noise   *)
(* on the diagonal of its correlation matrix, declared, estimated within     *)
(* bounds, or read off repeated observations: a point observed r times is    *)
(* the mean of its observations with variance (their sample variance) / r,   *)
(* a point observed once has the declared noise.                             *)
EXTENDS Fx
CONSTANTS Ys, MaxObs

(* what a level knows about each distinct point, from its observations      *)
RECURSIVE SumSqDev(_, _, _)
SumSqDev(s, m, n) == IF n = 0 THEN 0 ELSE Mul(s[n] - m, s[n] - m) + SumSqDev(s, m, n - 1)
MeanOf(s) == SumSeq(s) \div Len(s)
NoiseOf(s, declared) == IF Len(s) = 1 THEN declared ELSE LET m == MeanOf(s) IN SumSqDev(s, m, Len(s)) \div ((Len(s) - 1) * Len(s))
SpreadOf(s) == LET m == MeanOf(s) IN SumSqDev(s, m, Len(s))
(* observations without any spread say nothing about the noise              *)
NoiseIs(v, s, declared, tol) ==
    IF Len(s) > 1 /\ SpreadOf(s) = 0 THEN v >= -tol /\ v <= declared + tol ELSE Near(v, NoiseOf(s, IF Len(s) = 1 THEN declared ELSE 0), tol)
WithinBounds(n, lo, hi, tol) == \A i \in 1..Len(n) : IsNum(n[i]) /\ n[i] >= lo - tol /\ n[i] <= hi + tol
Same(a, b, tol) == \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)

(* ---- bounded model: observations arrive one by one; counts, sums and sums *)
(* of squares suffice, and the pooled variance of the mean never is negative *)
VARIABLES obs, cnt, tot, sq
mvars == <<obs, cnt, tot, sq>>
Init == obs = <<>> /\ cnt = 0 /\ tot = 0 /\ sq = 0
Observe == cnt < MaxObs /\ \E y \in Ys : obs' = Append(obs, y) /\ cnt' = cnt + 1 /\ tot' = tot + y /\ sq' = sq + y * y
Next == Observe
Spec == Init /\ [][Next]_mvars
RECURSIVE Dev2(_, _)
Dev2(s, n) == IF n = 0 THEN 0 ELSE (s[n] * Len(s) - SumSeq(s)) * (s[n] * Len(s) - SumSeq(s)) + Dev2(s, n - 1)
(* SUM (y - mean)^2 = sq - tot^2/cnt, times cnt^2 *)
Sufficient == cnt > 0 => Dev2(obs, cnt) = cnt * (cnt * sq - tot * tot)
NonNegative == cnt > 1 => cnt * sq - tot * tot >= 0
(* the order of the observations is irrelevant *)
Swapped == [i \in 1..cnt |-> obs[cnt + 1 - i]]
OrderFree == cnt > 0 => Dev2(Swapped, cnt) = Dev2(obs, cnt)
=============================================================================
