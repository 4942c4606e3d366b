----------------------------- MODULE Regress -----------------------------
(* C06.  Polynomial regression: least squares in the space spanned by a    *)
(* monomial basis.  It is exact on that space, and on any data leaves a    *)
(* residual orthogonal to every basis function.  Points and coefficients   *)
(* are integers, so the expected values are computed exactly here.         *)
(* Bounded model: the closed-form line fit on an integer line.             *)
EXTENDS Fx
CONSTANTS Line, Vals

Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i <= j}
(* the basis as a set of exponent-like index sequences *)
Basis(deg, n) == {<<>>} \cup (IF deg >= 1 THEN {<<i>> : i \in 1..n} ELSE {}) \cup (IF deg >= 2 THEN Pairs(n) ELSE {})
Mono(b, x) == IF b = <<>> THEN 1 ELSE IF Len(b) = 1 THEN x[b[1]] ELSE x[b[1]] * x[b[2]]
(* terms: sequence of [b |-> index sequence, c |-> integer coefficient] *)
RECURSIVE EvalTo(_, _, _)
EvalTo(terms, x, k) == IF k = 0 THEN 0 ELSE terms[k].c * Mono(terms[k].b, x) + EvalTo(terms, x, k - 1)
Eval(terms, x) == EvalTo(terms, x, Len(terms))
Size(deg, n) == Cardinality(Basis(deg, n))
(* the derivative of a monomial in input k (product rule) *)
MonoSlope(b, x, k) == IF b = <<>> THEN 0 ELSE IF Len(b) = 1 THEN (IF b[1] = k THEN 1 ELSE 0)
                      ELSE (IF b[1] = k THEN x[b[2]] ELSE 0) + (IF b[2] = k THEN x[b[1]] ELSE 0)
EvalSlope(terms, x, k) == LET S[i \in 0..Len(terms)] == IF i = 0 THEN 0 ELSE S[i - 1] + terms[i].c * MonoSlope(terms[i].b, x, k) IN S[Len(terms)]
InSpace(terms, deg) == \A k \in 1..Len(terms) : Len(terms[k].b) <= deg
RECURSIVE Dot(_, _, _, _)
Dot(r, xs, b, k) == IF k = 0 THEN 0 ELSE r[k] * Mono(b, xs[k]) + Dot(r, xs, b, k - 1)
RECURSIVE AbsMass(_, _, _)
AbsMass(xs, b, k) == IF k = 0 THEN 0 ELSE Abs(Mono(b, xs[k])) + AbsMass(xs, b, k - 1)
(* observed residual column r is orthogonal to basis function b, up to the rounding of the observations *)
Orthogonal(r, xs, b) == AllNum(r) /\ Abs(Dot(r, xs, b, Len(xs))) <= AbsMass(xs, b, Len(xs)) + 20

(* ---- bounded model *)
VARIABLES pts, phase
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + Sum(S \ {e}, f)
D == DOMAIN pts
Sx == Sum(D, [i \in D |-> i])
Sy == Sum(D, pts)
Sxx == Sum(D, [i \in D |-> i * i])
Sxy == Sum(D, [i \in D |-> i * pts[i]])
Den == Cardinality(D) * Sxx - Sx * Sx
B1 == Cardinality(D) * Sxy - Sx * Sy
B0 == Sxx * Sy - Sx * Sxy
Pred(x) == B0 + B1 * x            \* times Den
Init == pts \in UNION {[S -> Vals] : S \in {T \in SUBSET Line : Cardinality(T) >= 2}} /\ phase = "set"
Next == phase = "set" /\ phase' = "fit" /\ pts' = pts
Spec == Init /\ [][Next]_<<pts, phase>>
ExactOnLines == \A a, b \in Vals : (\A i \in D : pts[i] = a + b * i) => \A x \in Line : Pred(x) = Den * (a + b * x)
Optimal == /\ Sum(D, [i \in D |-> Den * pts[i] - Pred(i)]) = 0
           /\ Sum(D, [i \in D |-> i * (Den * pts[i] - Pred(i))]) = 0
=========================================================================
