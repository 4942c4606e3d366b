------------------------------ MODULE Errors ------------------------------
(* C33.  The normalised RMS error of predictions p against references y:    *)
(* |p - y| / |y|, over validation data or over the training data, of values *)
(* or of derivatives in a direction.                                        *)
EXTENDS Fx
CONSTANTS Vals, N

SqSum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + Mul(s[i], s[i]) IN S[Len(s)]
Diff(p, y) == [i \in 1..Len(y) |-> p[i] - y[i]]
(* r = |p - y| / |y|, without taking a root: r^2 |y|^2 = |p - y|^2           *)
IsMeasure(r, p, y, tol) ==
    /\ Len(p) = Len(y) /\ AllNum(p) /\ AllNum(y) /\ IsNum(r) /\ r >= 0 /\ r <= 5 * One
    /\ Abs(Mul(Mul(r, r), SqSum(y)) - SqSum(Diff(p, y))) <= tol
(* what a request is about: the data set and the quantity                   *)
Wanted(req, trained) ==
    IF req.given THEN [data |-> "given", what |-> req.kx]
    ELSE IF req.kx \in trained THEN [data |-> "training", what |-> req.kx] ELSE [data |-> "refused", what |-> req.kx]

(* ---- bounded model: small integer vectors; squared measure as fraction   *)
VARIABLES p, y, a
mvars == <<p, y, a>>
Vecs == [1..N -> Vals]
Init == p \in Vecs /\ y \in {v \in Vecs : \E i \in 1..N : v[i] # 0} /\ a \in {1, 2, -3}
Next == UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
Num(q, z) == LET S[i \in 0..N] == IF i = 0 THEN 0 ELSE S[i - 1] + (q[i] - z[i]) * (q[i] - z[i]) IN S[N]
Zero == [i \in 1..N |-> 0]
Den(z) == Num(z, Zero)
Scaled(q) == [i \in 1..N |-> a * q[i]]
Rev(q) == [i \in 1..N |-> q[N + 1 - i]]
ZeroIffEqual == (Num(p, y) = 0) <=> (p = y)
ScaleFree == Num(Scaled(p), Scaled(y)) * Den(y) = Num(p, y) * Den(Scaled(y))
OrderFree == Num(Rev(p), Rev(y)) * Den(y) = Num(p, y) * Den(Rev(y))
NullModel == Num(Zero, y) = Den(y)
============================================================================
