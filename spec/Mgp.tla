-------------------------------- MODULE Mgp --------------------------------
(* C35.  Marginal Gaussian process: a kriging model of all the inputs whose *)
(* correlation only sees their projection on a few directions, and whose    *)
(* variance accounts for the uncertainty of these directions:               *)
(*   V = 4/3 s2 + dm' W dm + ds2' W ds2 / (3 s2)                            *)
(* with s2 the kriging variance, dm and ds2 the derivatives of the kriging  *)
(* prediction and variance by the directions, W their covariance.           *)
(* A point may be given by its projection: it then stands for any point     *)
(* that has this projection.                                                *)
EXTENDS Fx
CONSTANTS Coords, Moves

Third(a) == a \div 3
RECURSIVE Squares(_, _)
Squares(z, n) == IF n = 0 THEN 0 ELSE Mul(z[n], z[n]) + Squares(z, n - 1)
(* z, zz: dm and ds2 / sqrt(s2), whitened by W *)
Marginal(s, z, zz) == Third(4 * s) + Squares(z, Len(z)) + Third(Squares(zz, Len(zz)))
InflatedEnough(v, s, tol) == IsNum(v) /\ IsNum(s) /\ s >= 0 /\ v >= 0 /\ 3 * v >= 4 * s - tol

(* ---- bounded model: a predictor that sees the data through the           *)
(* projection on an integer direction a; sliding the query or a training    *)
(* point along the kernel of a, or turning a around, changes nothing; a     *)
(* lifted projection is as good as the point it came from                   *)
VARIABLES a, X, y, q, p0, n
mvars == <<a, X, y, q, p0, n>>
Dot(v, w) == v[1] * w[1] + v[2] * w[2]
Hat(d) == Max2(0, 4 - Abs(d))
PredAt(u) == LET F[i \in 0..2] == IF i = 0 THEN 0 ELSE F[i - 1] + y[i] * Hat(u - Dot(a, X[i])) IN F[2]
Null(t) == <<-t * a[2], t * a[1]>>
Plus(v, w) == <<v[1] + w[1], v[2] + w[2]>>
Pts == {<<i, j>> : i \in Coords, j \in Coords}
Init == /\ a \in {<<1, 0>>, <<0, -1>>, <<1, 1>>, <<2, -1>>}
        /\ X \in [1..2 -> Pts] /\ y \in [1..2 -> {-1, 2}] /\ q \in Pts
        /\ n = 0 /\ p0 = PredAt(Dot(a, q))
Next == /\ n < Moves /\ n' = n + 1 /\ p0' = p0 /\ y' = y
        /\ \/ \E t \in {-1, 1} : q' = Plus(q, Null(t)) /\ UNCHANGED <<a, X>>
           \/ \E t \in {-1, 1} : \E i \in 1..2 : X' = [X EXCEPT ![i] = Plus(@, Null(t))] /\ UNCHANGED <<a, q>>
           \/ a' = <<-a[1], -a[2]>> /\ UNCHANGED <<X, q>>
Spec == Init /\ [][Next]_mvars
Unseen == PredAt(Dot(a, q)) = p0
Lifted == \A r \in Pts : Dot(a, r) = Dot(a, q) => PredAt(Dot(a, r)) = p0
=============================================================================
