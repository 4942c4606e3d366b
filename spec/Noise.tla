------------------------------- MODULE Noise -------------------------------
(* C31.  Kriging with noise.  The predictor is the best linear unbiased one *)
(* for a correlation matrix that carries the noise on its diagonal:         *)
(*    m(q) = f(q) beta + SUM_j r(q, x_j) g_j,                               *)
(*    y_i - m(x_i) = N_i g_i,      SUM_i f_k(x_i) g_i = 0.                  *)
(* Weights g are read off the residuals, so that the code's own predictions *)
(* decide whether they are those of the declared noise.                     *)
EXTENDS Fx
CONSTANTS Corrs, Noises, Ys

Dot(a, b) == LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE S[i - 1] + Mul(a[i], b[i]) IN S[Len(a)]
(* what remains of predictions m once the weighted correlations are removed *)
TrendPart(m, r, g) == [i \in 1..Len(m) |-> m[i] - Dot(r[i], g)]
(* differences along equally spaced points: the first of a constant, the    *)
(* second of an affine and the third of a quadratic function vanish         *)
RECURSIVE Differ(_, _)
Differ(s, k) == IF k = 0 THEN s ELSE Differ([i \in 1..Len(s) - 1 |-> s[i + 1] - s[i]], k - 1)
Degree(trend) == CASE trend = "constant" -> 0 [] trend = "linear" -> 1 [] OTHER -> 2
IsTrend(s, trend, tol) == LET d == Differ(s, Degree(trend) + 1) IN \A i \in 1..Len(d) : Abs(d[i]) <= tol
Unbiased(f, g, tol) == \A k \in 1..Len(f) : Abs(Dot(f[k], g)) <= tol
WithinBounds(n, lo, hi, tol) == \A i \in 1..Len(n) : IsNum(n[i]) /\ n[i] >= lo - tol /\ n[i] <= hi + tol

(* ---- bounded model: exact ordinary kriging by Cramer's rule.  A point    *)
(* observed twice with noise v each is the point observed once with the     *)
(* mean output and noise v/2.  Correlations in quarters.                    *)
RECURSIVE Det(_)
Minor(A, j) == [i \in 1..Len(A) - 1 |-> [k \in 1..Len(A) - 1 |-> A[i + 1][IF k < j THEN k ELSE k + 1]]]
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE LET S[j \in 0..Len(A)] == IF j = 0 THEN 0 ELSE S[j - 1] + (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, j)) IN S[Len(A)]
U == 4
VARIABLES c, v, w, y1, y2, y3, qa, qb
mvars == <<c, v, w, y1, y2, y3, qa, qb>>
Init == /\ c \in Corrs /\ v \in Noises /\ w \in Noises /\ y1 \in Ys /\ y2 \in Ys /\ y3 \in Ys
        /\ qa \in Corrs \cup {U} /\ qb \in Corrs
Next == UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
(* the kriging system with a constant trend, and its solution (numerators)  *)
Border(K) == LET n == Len(K) IN [i \in 1..n + 1 |-> [j \in 1..n + 1 |-> IF i <= n /\ j <= n THEN K[i][j] ELSE IF i = n + 1 /\ j = n + 1 THEN 0 ELSE 1]]
Solve(A, b) == [k \in 1..Len(A) |-> Det([i \in 1..Len(A) |-> [A[i] EXCEPT ![k] = b[i]]])]
PredNum(K, y, r) == LET A == Border(K)  s == Solve(A, Append(y, 0))  n == Len(y)
                        S[i \in 0..n] == IF i = 0 THEN s[n + 1] ELSE S[i - 1] + r[i] * s[i] IN S[n]
PredDen(K) == Det(Border(K))
Twice == <<<<U + v, U, c>>, <<U, U + v, c>>, <<c, c, U + w>>>>
Once == <<<<U + v \div 2, c>>, <<c, U + w>>>>
(* outputs doubled so that the mean is an integer *)
MergeRepeats == PredNum(Twice, <<2 * y1, 2 * y2, 2 * y3>>, <<qa, qa, qb>>) * PredDen(Once)
              = PredNum(Once, <<y1 + y2, 2 * y3>>, <<qa, qb>>) * PredDen(Twice)
(* without noise the data is interpolated *)
Exact == LET K == <<<<U, c>>, <<c, U + w>>>> IN PredNum(K, <<y1, y3>>, <<U, c>>) = y1 * PredDen(K)
(* the residual is the noise times the weight, and the weights sum to zero *)
Residuals == LET A == Border(Once)  s == Solve(A, <<y1, y3, 0>>) IN
    /\ y1 * PredDen(Once) - PredNum(Once, <<y1, y3>>, <<U, c>>) = (v \div 2) * s[1]
    /\ s[1] + s[2] = 0
============================================================================
