------------------------------- MODULE Lhs -------------------------------
(* C13.  Latin designs.  A coordinate is scaled so that one of the n equal  *)
(* strata of its variable is One wide; the random streams are abstracted to  *)
(* the history of draws made from them since they were seeded.               *)
EXTENDS Fx
CONSTANTS N, NX

Stratum(v) == v \div One
InLimits(m, n) == \A i \in 1..Len(m) : \A j \in 1..Len(m[i]) : IsNum(m[i][j]) /\ -5 <= m[i][j] /\ m[i][j] <= n * One + 5
Latin(m, n, nx) == \A j \in 1..nx : {Stratum(m[i][j]) : i \in 1..Len(m)} = 0..(n - 1)
Centred(m, tol) == \A i \in 1..Len(m) : \A j \in 1..Len(m[i]) : Near(m[i][j] % One, One \div 2, tol)

(* what a call draws from and what its result is a function of:             *)
(*   kind "int": the seed;  kind "obj": the object's seed and all draws made *)
(*   from it before;  kind "glob": the global seed and all draws since       *)
Key(what, n, nx, src, hist) == <<what, n, nx, src, hist>>

(* ---- bounded model: the exchange procedure starts from any Latin design  *)
(* and swaps two entries of one column: it only visits Latin designs        *)
VARIABLES d
Perms == {f \in [1..N -> 0..(N - 1)] : \A i, k \in 1..N : f[i] = f[k] => i = k}
AsMat(c) == [i \in 1..N |-> [j \in 1..NX |-> c[j][i] * One + One \div 3]]
Init == d \in [1..NX -> Perms]
Swap(j, a, b) == d' = [d EXCEPT ![j] = [@ EXCEPT ![a] = d[j][b], ![b] = d[j][a]]]
Next == \E j \in 1..NX : \E a, b \in 1..N : Swap(j, a, b)
Spec == Init /\ [][Next]_d
StaysLatin == Latin(AsMat(d), N, NX) /\ InLimits(AsMat(d), N)
(* duplicating an entry of a column is seen *)
BreakSeen == N > 1 => \A j \in 1..NX : ~Latin(AsMat([d EXCEPT ![j] = [@ EXCEPT ![1] = d[j][2]]]), N, NX)
=========================================================================
