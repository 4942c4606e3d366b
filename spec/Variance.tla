----------------------------- MODULE Variance -----------------------------
(* C08.  The kriging variance of a noise-free model: non-negative          *)
(* everywhere, zero at the data, positive away from them, proportional to   *)
(* the square of the output scale, with the derivatives it reports.         *)
(* The bounded model is simple kriging with the Markov correlation          *)
(* r(d) = 2^-d on an integer line, computed exactly with integers: every   *)
(* design, every point, every output scale.                                *)
EXTENDS Fx
CONSTANTS Line, Scales

Zero(row, tol) == \A j \in 1..Len(row) : Near(row[j], 0, tol)
NonNegative(sign) == \A j \in 1..Len(sign) : sign[j] \in {0, 1}
Positive(sign) == \A j \in 1..Len(sign) : sign[j] = 1
(* a = 2^k, so that the variance observed in units of a^2 is the same number *)
Quadratic(row, base, tol) == NearSeq(row, base, tol)

(* ---- bounded model *)
VARIABLES data, scale, at
vars == <<data, scale, at>>
Pow2(n) == 2 ^ n
Left(x) == {d \in data : d <= x}
Right(x) == {d \in data : d >= x}
MaxS(S) == CHOOSE m \in S : \A z \in S : z <= m
MinS(S) == CHOOSE m \in S : \A z \in S : m <= z
(* numerator and denominator of the variance in units of sigma^2 *)
Var(x) ==
    IF Left(x) = {} THEN LET q == Pow2(2 * (MinS(data) - x)) IN <<q - 1, q>>
    ELSE IF Right(x) = {} THEN LET q == Pow2(2 * (x - MaxS(data))) IN <<q - 1, q>>
    ELSE LET a == x - MaxS(Left(x))  b == MinS(Right(x)) - x IN
         IF a = 0 THEN <<0, 1>>
         ELSE \* (1 - ra^2)(1 - rb^2) / (1 - ra^2 rb^2)
              <<(Pow2(2 * a) - 1) * (Pow2(2 * b) - 1), Pow2(2 * (a + b)) - 1>>
Observed(x) == <<scale * scale * Var(x)[1], Var(x)[2]>>
Init == data \in SUBSET Line \ {{}} /\ scale \in Scales /\ at \in Line
Next == UNCHANGED data /\ scale' \in Scales /\ at' \in Line
Spec == Init /\ [][Next]_vars
Bounded == Var(at)[1] >= 0 /\ Var(at)[1] <= Var(at)[2] /\ Var(at)[2] > 0
ZeroAtData == at \in data <=> Var(at)[1] = 0
Scaled == Observed(at)[1] * Var(at)[2] = scale * scale * Var(at)[1] * Observed(at)[2]
(* one more observation never increases the variance *)
Monotone == \A d \in Line : LET v == Var(at)
                                w == IF d = at THEN <<0, 1>> ELSE v IN w[1] * v[2] <= v[1] * w[2]
=========================================================================
