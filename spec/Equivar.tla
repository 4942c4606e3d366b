------------------------------ MODULE Equivar ------------------------------
(* C32.  Equivariance of trained models.  A relabelling or rescaling of the *)
(* training data acts on the predictions:                                   *)
(*   reorder the points        - nothing changes                            *)
(*   reorder the outputs       - predictions, slopes, variances reordered   *)
(*   reorder the inputs        - slopes reordered                           *)
(*   output j := s 2^p y + b   - values s 2^p v + b, slopes s 2^p d,        *)
(*                               variances 4^p w                            *)
(*   input k := 2^p x + b      - slopes d_k / 2^p                           *)
(* A chain of them acts as their composition.                               *)
EXTENDS Fx
CONSTANTS Coords, Moves

Shift2(v, p) == IF p >= 0 THEN v * (2 ^ p) ELSE (IF v < 0 THEN -((-v + (2 ^ (-p - 1))) \div (2 ^ (-p))) ELSE (v + (2 ^ (-p - 1))) \div (2 ^ (-p)))
(* observations: [v |-> values, row per point, w |-> variances (may be empty), d |-> slopes, one matrix per input] *)
MapMat(m, F(_, _)) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> F(m[i][j], j)]]
Permute(s, pi) == [i \in 1..Len(pi) |-> s[pi[i]]]
PermuteCols(m, pi) == [i \in 1..Len(m) |-> Permute(m[i], pi)]
Act(o, g) ==
    CASE g.what = "rows" -> o
      [] g.what = "outputs" -> [v |-> PermuteCols(o.v, g.pi), w |-> PermuteCols(o.w, g.pi), d |-> [k \in 1..Len(o.d) |-> PermuteCols(o.d[k], g.pi)]]
      [] g.what = "inputs" -> [o EXCEPT !.d = IF Len(o.d) = 0 THEN o.d ELSE Permute(o.d, g.pi)]
      [] g.what = "outaffine" ->
           LET A(x, j) == IF j = g.j THEN g.s * Shift2(x, g.p) + g.b ELSE x
               B(x, j) == IF j = g.j THEN g.s * Shift2(x, g.p) ELSE x
               W(x, j) == IF j = g.j THEN Shift2(x, 2 * g.p) ELSE x
           IN  [v |-> MapMat(o.v, A), w |-> MapMat(o.w, W), d |-> [k \in 1..Len(o.d) |-> MapMat(o.d[k], B)]]
      [] g.what = "inaffine" ->
           LET B(x, j) == Shift2(x, -g.p) IN [o EXCEPT !.d = [k \in 1..Len(o.d) |-> IF k = g.j THEN MapMat(o.d[k], B) ELSE o.d[k]]]
SameObs(a, b, tol) == NearMat(a.v, b.v, tol) /\ NearMat(a.w, b.w, tol) /\ Len(a.d) = Len(b.d) /\ \A k \in 1..Len(a.d) : NearMat(a.d[k], b.d[k], 4 * tol)

(* ---- bounded model: a straight line fitted to three integer points by    *)
(* least squares, transformed step by step; its prediction times the        *)
(* determinant is an integer.  Its predictions move as Act says.            *)
VARIABLES X, Y, q, A, B, n0, c, n
mvars == <<X, Y, q, A, B, n0, c, n>>
Sum3(f(_)) == f(1) + f(2) + f(3)
Det == 3 * Sum3(LAMBDA i : X[i] * X[i]) - Sum3(LAMBDA i : X[i]) * Sum3(LAMBDA i : X[i])
SlopeNum == 3 * Sum3(LAMBDA i : X[i] * Y[i]) - Sum3(LAMBDA i : X[i]) * Sum3(LAMBDA i : Y[i])
(* 3 Det f(q) *)
PredNum == Sum3(LAMBDA i : Y[i]) * Det + SlopeNum * (3 * q - Sum3(LAMBDA i : X[i]))
Init == /\ X \in {<<0, 1, z>> : z \in Coords} /\ Y \in [1..3 -> Coords] /\ q \in Coords
        /\ A = 1 /\ B = 0 /\ c = 1 /\ n = 0
        /\ n0 = [p |-> 0, d |-> 1, s |-> 0]
        /\ Det # 0
Reset == n = 0 /\ n' = 1 /\ n0' = [p |-> PredNum, d |-> Det, s |-> SlopeNum] /\ UNCHANGED <<X, Y, q, A, B, c>>
Step == /\ n \in 1..Moves /\ n' = n + 1 /\ n0' = n0
        /\ \/ \E i, j \in 1..3 : i < j /\ X' = [X EXCEPT ![i] = X[j], ![j] = X[i]] /\ Y' = [Y EXCEPT ![i] = Y[j], ![j] = Y[i]] /\ UNCHANGED <<q, A, B, c>>
           \/ \E a \in {-1, 2} : \E b \in {0, 1} : Y' = [i \in 1..3 |-> a * Y[i] + b] /\ A' = a * A /\ B' = a * B + b /\ UNCHANGED <<X, q, c>>
           \/ \E a \in {-1, 2} : \E b \in {0, 1} : X' = [i \in 1..3 |-> a * X[i] + b] /\ q' = a * q + b /\ c' = a * c /\ UNCHANGED <<Y, A, B>>
Next == Reset \/ Step
Spec == Init /\ [][Next]_mvars
(* f' = A f + B and slope' = (A / c) slope, cross-multiplied *)
Values == n > 0 => PredNum * n0.d = Det * (A * n0.p + 3 * B * n0.d)
Slopes == n > 0 => SlopeNum * n0.d * c = A * n0.s * Det
============================================================================
