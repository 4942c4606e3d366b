------------------------------- MODULE Radial -------------------------------
(* C37.  Interpolants defined by distances.                                  *)
(*   IDW: the average of the training outputs weighted by distance^-p;       *)
(*   RBF: a combination of exp(-SUM_k (d_k / d0_k)^2) centred at the         *)
(*        training points plus a polynomial of the declared degree.          *)
EXTENDS Fx
CONSTANTS Pos, Ys

Dot(a, b) == LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE S[i - 1] + Mul(a[i], b[i]) IN S[Len(a)]
(* weights relative to the nearest point, from squared distances on a lattice *)
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 1 THEN a ELSE Mul(a, PowN(a, n - 1))
Nearest(d2) == CHOOSE i \in 1..Len(d2) : \A j \in 1..Len(d2) : d2[i] <= d2[j]
(* (a/b) in fixed point for 0 <= a <= b < 2^20 *)
Ratio(a, b) == LET q1 == (a * 1000) \div b  r1 == (a * 1000) % b IN q1 * 1000 + (r1 * 1000) \div b
Weights(d2, half) == LET m == Nearest(d2) IN
    [i \in 1..Len(d2) |-> IF d2[m] = 0 THEN (IF i = m THEN One ELSE 0) ELSE PowN(Ratio(d2[m], d2[i]), half)]
IsAverage(y, w, ys, tol) == Near(Mul(y, SumSeq(w) \div 16), SumSeq([i \in 1..Len(w) |-> Mul(ys[i], w[i])]) \div 16, tol)
IsShare(s, w, tol) == \A i \in 1..Len(w) : Near(Mul(s[i], SumSeq(w) \div 16), w[i] \div 16, tol)
(* the declared combination, c and phi one entry per centre *)
IsCombination(y, phi, c, f, b, tol) == Near(y, Dot(phi, c) + Dot(f, b), tol)

(* ---- bounded model: three data points on a line, exact rationals, p = 2  *)
VARIABLES x, y, q
mvars == <<x, y, q>>
Init == x \in {s \in [1..3 -> Pos] : s[1] # s[2] /\ s[1] # s[3] /\ s[2] # s[3]} /\ y \in [1..3 -> Ys] /\ q \in Pos
Next == UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
D2(i) == (q - x[i]) * (q - x[i])
N(i) == CASE i = 1 -> D2(2) * D2(3) [] i = 2 -> D2(1) * D2(3) [] OTHER -> D2(1) * D2(2)
Num == N(1) * y[1] + N(2) * y[2] + N(3) * y[3]
Den == N(1) + N(2) + N(3)
Interpolates == \A i \in 1..3 : q = x[i] => Num = Den * y[i]
Between == Den > 0 /\ Num <= Den * MaxSeq(y) /\ Num >= Den * MinSeq(y)
(* the nearest point never has less influence than another *)
NearestLeads == \A i, j \in 1..3 : D2(i) <= D2(j) => N(i) >= N(j)
(* the relative weights used on observations agree with the exact ones *)
Agree == LET w == Weights(<<D2(1), D2(2), D2(3)>>, 1) IN Abs(Mul(((Num * 1000) \div Den) * 1000, SumSeq(w)) - SumSeq([i \in 1..3 |-> Mul(y[i] * One, w[i])])) <= 3000
=============================================================================
