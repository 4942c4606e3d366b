------------------------------- MODULE Grid -------------------------------
(* C14.  Full-factorial grids.  Weights are small integers w[k]; variable k  *)
(* deserves the share w[k]/W of the levels and the next level goes to the   *)
(* variable with the largest deficit w[k]/W - num[k]/S (compared exactly).  *)
EXTENDS Fx
CONSTANTS NX, MaxW, MaxN

RECURSIVE Prod(_, _)
Prod(num, k) == IF k = 0 THEN 1 ELSE num[k] * Prod(num, k - 1)
Size(num) == Prod(num, Len(num))
Deficit(num, w, k) == w[k] * SumSeq(num) - num[k] * SumSeq(w)
Best(num, w) == {k \in 1..Len(w) : \A j \in 1..Len(w) : Deficit(num, w, j) <= Deficit(num, w, k)}
(* the first of the best; variables in exactly the same situation are told   *)
(* apart by order, mathematically tied ones in different situations are not  *)
Choices(num, w) == {k \in Best(num, w) : \A j \in Best(num, w) : j < k => ~(w[j] = w[k] /\ num[j] = num[k])}
Inc(num, k) == [num EXCEPT ![k] = @ + 1]
RECURSIVE Reach(_, _, _)
Reach(num, w, n) == IF Size(num) >= n THEN {num} ELSE UNION {Reach(Inc(num, k), w, n) : k \in Choices(num, w)}
Levels(w, n) == Reach([k \in 1..Len(w) |-> 1], w, n)

(* coordinate v (0..One over the range) is level i of L *)
IndexOf(v, L) == IF L = 1 THEN 0 ELSE (v * (L - 1) + One \div 2) \div One
OnLevel(v, L) == IF L = 1 THEN Near(v, 0, 2) ELSE Near(v * (L - 1), IndexOf(v, L) * One, 2 * L)
GridPoint(p, num) == \A k \in 1..Len(num) : IsNum(p[k]) /\ OnLevel(p[k], num[k]) /\ IndexOf(p[k], num[k]) \in 0..(num[k] - 1)
Cell(p, num) == [k \in 1..Len(num) |-> IndexOf(p[k], num[k])]
IsSample(m, num, n, clip) ==
    /\ Len(m) = IF clip THEN Size(num) ELSE n
    /\ \A i \in 1..Len(m) : Len(m[i]) = Len(num) /\ GridPoint(m[i], num)
    /\ Cardinality({Cell(m[i], num) : i \in 1..Len(m)}) = Len(m)

(* ---- bounded model: the greedy allocation *)
VARIABLES w, n, num, last
Init == /\ w \in {v \in [1..NX -> 0..MaxW] : SumSeq(v) > 0} /\ n \in 1..MaxN
        /\ num = [k \in 1..NX |-> 1] /\ last = 0
Next == /\ Size(num) < n /\ last' = Size(num) /\ \E k \in Choices(num, w) : num' = Inc(num, k)
        /\ UNCHANGED <<w, n>>
Spec == Init /\ [][Next]_<<w, n, num, last>> /\ WF_<<w, n, num, last>>(Next)
Minimal == last < n
Progress == last < Size(num)
Balanced == (\A j, k \in 1..NX : w[j] = w[k]) => \A j, k \in 1..NX : num[j] - num[k] \in {-1, 0, 1}
Unweighted == \A k \in 1..NX : (w[k] = 0 /\ Cardinality({j \in 1..NX : w[j] > 0}) >= 1) => num[k] = 1
Ends == <>(Size(num) >= n)
=========================================================================
