------------------------------ MODULE Nested ------------------------------
(* C15.  Nested designs, from the lowest to the highest fidelity: sizes     *)
(* 2^(L-1) n, ..., 2 n, n.  A larger level keeps some points of a Latin     *)
(* design of its own size (each next point takes the place of its nearest    *)
(* remaining neighbour) and contains the next level.                        *)
EXTENDS Fx
CONSTANTS N0, NX, Lev

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
SizeOf(i, lev, n) == Pow2(lev - i) * n
(* points are named by integers; strata per variable of each level *)
IsNested(ids, i) == {ids[i + 1][k] : k \in 1..Len(ids[i + 1])} \subseteq {ids[i][k] : k \in 1..Len(ids[i])}
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
(* the strata (of the n equal ones) of the points in rows, all different *)
OwnLatin(m, rows, n, nx) == \A j \in 1..nx : Cardinality({(m[r][j] * n) \div One : r \in rows}) = Cardinality(rows)
OwnRows(ids, i) == IF i = Len(ids) THEN 1..Len(ids[i])
                   ELSE {r \in 1..Len(ids[i]) : ids[i][r] \notin {ids[i + 1][k] : k \in 1..Len(ids[i + 1])}}

(* ---- bounded model: one variable; level i starts as a Latin design (one   *)
(* point per stratum); every point of the next level replaces the nearest    *)
(* point not yet replaced                                                    *)
VARIABLES big, small, todo, gone
vars == <<big, small, todo, gone>>
Coords(n) == [1..n -> 0..(4 * N0 - 1)]
Init == /\ big = [k \in 1..(2 * N0) |-> 2 * (k - 1)]        \* strata are 2 wide
        /\ small \in {f \in Coords(N0) : \A k \in 1..N0 : f[k] \div 4 = k - 1}
        /\ todo = 1 /\ gone = {}
Dist(a, b) == Abs(a - b)
Next == /\ todo <= N0
        /\ \E k \in (1..(2 * N0)) \ gone :
              /\ \A j \in (1..(2 * N0)) \ gone : Dist(big[k], small[todo]) <= Dist(big[j], small[todo])
              /\ gone' = gone \cup {k}
        /\ todo' = todo + 1 /\ UNCHANGED <<big, small>>
Spec == Init /\ [][Next]_vars
Kept == (1..(2 * N0)) \ gone
SizeRight == todo = N0 + 1 => Cardinality(Kept) + N0 = 2 * N0
KeptDistinct == Cardinality({big[k] \div 2 : k \in Kept}) = Cardinality(Kept)
NeverStuck == todo <= N0 => ENABLED Next
=========================================================================
