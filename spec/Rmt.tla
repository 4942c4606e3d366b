-------------------------------- MODULE Rmt --------------------------------
(* C26.  Tensor-product splines: piecewise polynomials of given degree, with *)
(* given continuity, minimising energy + misfit, extended outside a box.     *)
EXTENDS Fx
CONSTANTS R, Deg

(* ---- equispaced values of a polynomial of degree d: differences of order  *)
(* d+1 vanish                                                                *)
RECURSIVE Diff(_, _)
Diff(s, k) == IF k = 0 THEN s ELSE Diff([i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]], k - 1)
IsPoly(s, d, tol) == AllNum(s) /\ LET D == Diff(s, d + 1) IN \A i \in 1..Len(D) : Abs(D[i]) <= tol

(* s = values at b-d*h, .., b-h, b, b+h, b+2h, b+3h (b a joint): the excess   *)
(* over the left piece's polynomial, continued to the right                  *)
RECURSIVE Continue(_, _, _)
Continue(s, d, m) == IF m = 0 THEN s
                     ELSE LET n == Len(s)
                              (* the next value with vanishing (d+1)-th difference *)
                              D == Diff(Append(SubSeq(s, n - d, n), 0), d + 1)
                          IN Continue(Append(s, -D[1]), d, m - 1)
Excess(s, d) == LET p == Continue(SubSeq(s, 1, d + 1), d, 3) IN [j \in 1..3 |-> s[d + 1 + j] - p[d + 1 + j]]
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
(* continuity up to derivative d-1: the excess is c (x-b)^d                   *)
JointMax(s, d, tol) == AllNum(s) /\ LET E == Excess(s, d) IN
                          Abs(E[2] - Pow(2, d) * E[1]) <= tol /\ Abs(E[3] - Pow(3, d) * E[1]) <= 4 * tol
(* continuity of value and first derivative of a cubic: excess is a x^2 + b x^3 *)
JointC1(s, tol) == AllNum(s) /\ LET E == Excess(s, 3) IN Abs(2 * E[3] - 9 * E[2] + 18 * E[1]) <= tol

(* ---- stationarity of  w/2 sum f''^2 + sum_i c_i/2 (f(x_i) - y_i)^2  along h *)
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE Mul(a[n], b[n]) + Dot(a, b, n - 1)
RECURSIVE AbsDot(_, _, _)
AbsDot(a, b, n) == IF n = 0 THEN 0 ELSE Abs(Mul(a[n], b[n])) + AbsDot(a, b, n - 1)
RECURSIVE Total(_, _)
Total(T, n) == IF n = 0 THEN 0 ELSE Dot(T[n].a, T[n].b, Len(T[n].a)) + Total(T, n - 1)
RECURSIVE AbsTotal(_, _)
AbsTotal(T, n) == IF n = 0 THEN 0 ELSE AbsDot(T[n].a, T[n].b, Len(T[n].a)) + AbsTotal(T, n - 1)
(* T = <<[a |-> weighted f'' or misfits, b |-> h'' or h], ...>>; tol in ppm    *)
Stationary(T, ppm) == /\ \A i \in 1..Len(T) : AllNum(T[i].a) /\ AllNum(T[i].b)
                      /\ Abs(Total(T, Len(T))) <= Mul(ppm, AbsTotal(T, Len(T))) + 20 + Len(T) * 4

(* ---- outside the box: linear (or constant) from the nearest boundary point  *)
RECURSIVE Lin(_, _, _)
Lin(g, dx, n) == IF n = 0 THEN 0 ELSE Mul(g[n], dx[n]) + Lin(g, dx, n - 1)
Outside(v, fb, gb, dx, extrapolate, tol) ==
    IsNum(v) /\ IsNum(fb) /\ AllNum(gb) /\ Near(v, fb + (IF extrapolate THEN Lin(gb, dx, Len(dx)) ELSE 0), tol)

(* ---- bounded model: two-piece polynomials of degree Deg with coefficients in *)
(* -R..R joined at 0: left p(x), right p(x) + e(x)                              *)
VARIABLES p, e
Coefs == [0..Deg -> -R..R]
RECURSIVE Eval(_, _, _)
Eval(c, x, k) == IF k < 0 THEN 0 ELSE c[k] * Pow(x, k) + Eval(c, x, k - 1)
Val(x) == Eval(p, x, Deg) + IF x > 0 THEN Eval(e, x, Deg) ELSE 0
Sample == [i \in 1..(Deg + 4) |-> Val(i - Deg - 1)]
Init == p \in Coefs /\ e \in Coefs
Next == UNCHANGED <<p, e>>
Spec == Init /\ [][Next]_<<p, e>>
LeftIsPoly == IsPoly(SubSeq(Sample, 1, Deg + 1) , Deg - 1, 0) <=> p[Deg] = 0
(* the joint tests accept exactly the smooth joints                             *)
MaxExact == JointMax(Sample, Deg, 0) <=> \A k \in 0..(Deg - 1) : e[k] = 0
C1Exact == Deg = 3 => (JointC1(Sample, 0) <=> 
    LET x1 == Eval(e, 1, 3)  x2 == Eval(e, 2, 3)  x3 == Eval(e, 3, 3) IN 2 * x3 - 9 * x2 + 18 * x1 = 0)
C1Accepts == Deg = 3 /\ e[0] = 0 /\ e[1] = 0 => JointC1(Sample, 0)
C1Rejects == Deg = 3 /\ JointC1(Sample, 0) => 11 * e[0] + 6 * e[1] = 0
=============================================================================
