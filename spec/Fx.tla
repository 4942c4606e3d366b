------------------------------- MODULE Fx -------------------------------
(* Fixed-point observations.  The harness abstracts a floating-point      *)
(* observation v on a scale S to the integer round(v/S * 10^6), saturated *)
(* at +-10^9; a NaN, an infinity or a missing value becomes NaN below.    *)
(* All comparisons of observations are made here, in the specification.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == 2000000000
One == 1000000

IsNum(a) == a # NaN
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol

NearSeq(s, u, tol) ==
    Len(s) = Len(u) /\ \A i \in 1..Len(s) : Near(s[i], u[i], tol)

NearMat(m, n, tol) ==
    Len(m) = Len(n) /\ \A i \in 1..Len(m) : NearSeq(m[i], n[i], tol)

AllNum(s) == \A i \in 1..Len(s) : IsNum(s[i])
AllNumMat(m) == \A i \in 1..Len(m) : AllNum(m[i])

HasShape(m, r, c) == Len(m) = r /\ \A i \in 1..Len(m) : Len(m[i]) = c

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))

MaxSeq(s) == LET R == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in R : \A y \in R : y <= x
MinSeq(s) == LET R == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in R : \A y \in R : x <= y

Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Row(m, i) == m[i]

(* product of two fixed-point numbers of absolute value at most 20 *)
MulPos(a, b) == LET a1 == a \div 1000  a0 == a % 1000  b1 == b \div 1000  b0 == b % 1000
                IN  a1 * b1 + (a1 * b0 + a0 * b1) \div 1000 + (a0 * b0) \div 1000000
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulPos(Abs(a), Abs(b)) ELSE -MulPos(Abs(a), Abs(b))

(* the set {name} when the clause is broken, {} when it holds *)
Clause(ok, name) == IF ok THEN {} ELSE {name}
=========================================================================
