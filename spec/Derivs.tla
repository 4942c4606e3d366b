------------------------------ MODULE Derivs ------------------------------
(* C07.  The derivative a model reports at a point is the derivative of    *)
(* the values it reports around that point.  Around a point the values are *)
(* observed as difference quotients q[k] = (f(x + k h) - f(x)) / (S h),    *)
(* k = -2, -1, 1, 2; the five-point rule combines them.  The bounded model *)
(* shows that the rule is exact for every polynomial of degree <= 4, and   *)
(* that it separates a wrong slope from the right one.                     *)
EXTENDS Fx
CONSTANTS CoefMax, Steps
Coefs == -1..CoefMax

(* twelve times the slope estimated from the quotients *)
FivePoint12(qm2, qm1, q1, q2) == qm2 - 8 * qm1 + 8 * q1 - q2
SlopeOk(d, q, tol) == /\ IsNum(d) /\ \A i \in 1..4 : IsNum(q[i])
                      /\ Abs(12 * (d \div 10) - FivePoint12(q[1] \div 10, q[2] \div 10, q[3] \div 10, q[4] \div 10)) <= 12 * ((tol + 30) \div 10)
(* values with kinks (absolute exponential kernel): a slope between the     *)
(* one-sided ones; ql and qu bound the secants                              *)
Secants2(q) == {-q[1], -2 * q[2], 2 * q[3], q[4]}
KinkOk(d, q, tol) == /\ IsNum(d) /\ \A i \in 1..4 : IsNum(q[i])
                     /\ \E a \in Secants2(q) : a - 2 * tol <= 2 * d
                     /\ \E a \in Secants2(q) : 2 * d <= a + 2 * tol
Clipped(d, q) == Abs(d) >= 1000000000 \/ \E i \in 1..4 : Abs(q[i]) >= 1000000000

(* ---- bounded model: quartic with integer coefficients, integer step *)
VARIABLES c, x, h
Init == c \in [0..4 -> Coefs] /\ x \in Coefs /\ h \in Steps
Next == UNCHANGED <<c, x, h>>
Spec == Init /\ [][Next]_<<c, x, h>>
F(z) == c[0] + z * (c[1] + z * (c[2] + z * (c[3] + z * c[4])))
DF(z) == c[1] + z * (2 * c[2] + z * (3 * c[3] + z * 4 * c[4]))
Exact == FivePoint12(F(x - 2 * h), F(x - h), F(x + h), F(x + 2 * h)) = 12 * h * DF(x)
Separates == \A w \in Coefs \ {0} : FivePoint12(F(x - 2 * h), F(x - h), F(x + h), F(x + 2 * h)) # 12 * h * (DF(x) + w)
=========================================================================
