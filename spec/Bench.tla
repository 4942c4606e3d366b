------------------------------- MODULE Bench -------------------------------
(* C29, C30.  Benchmark problems as functions of several variables with     *)
(* partial derivatives, and reductions: a problem in which only some        *)
(* variables are kept and the others stand at the fraction w of their       *)
(* limits.  Reductions compose.                                             *)
EXTENDS Fx
CONSTANTS N, Coords, MaxDepth

Sum(n, f(_)) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + f(i) IN S[n]
(* closed forms the specification evaluates itself, at integer points       *)
Sphere(x) == Sum(Len(x), LAMBDA i : x[i] * x[i])
DSphere(x, k) == 2 * x[k]
Sq(a) == a * a
Rosen(x) == Sum(Len(x) - 1, LAMBDA i : 100 * Sq(x[i + 1] - x[i] * x[i]) + Sq(1 - x[i]))
DRosen(x, k) == (IF k < Len(x) THEN -400 * (x[k + 1] - x[k] * x[k]) * x[k] - 2 * (1 - x[k]) ELSE 0)
              + (IF k > 1 THEN 200 * (x[k] - x[k - 1] * x[k - 1]) ELSE 0)
ProdSeq(s) == LET P[i \in 0..Len(s)] == IF i = 0 THEN One ELSE Mul(P[i - 1], s[i]) IN P[Len(s)]

(* the point of the original problem a reduction evaluates: dims are the    *)
(* kept variables in order (1-based), fixed the values of the others        *)
Embed(dims, fixed, x) == [i \in 1..Len(fixed) |-> IF \E k \in 1..Len(dims) : dims[k] = i
                                                   THEN x[CHOOSE k \in 1..Len(dims) : dims[k] = i] ELSE fixed[i]]
(* value at fraction w (fixed point) of limits                              *)
AtFraction(lo, hi, w) == Mul(One - w, lo) + Mul(w, hi)

(* ---- bounded model: reductions of the Rosenbrock function on integers    *)
VARIABLES dims, fixed, depth, keep
mvars == <<dims, fixed, depth, keep>>
Injective(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Base == [i \in 1..N |-> 1]
Init == depth = 1 /\ fixed \in [1..N -> {0, 1}] /\ \E n \in 1..N : dims \in {s \in [1..n -> 1..N] : Injective(s)} /\ keep = <<dims>>
(* reduce again: keep some of the kept ones, the others fixed at 1          *)
Reduce == /\ depth < MaxDepth /\ Len(dims) > 1
          /\ \E n \in 1..(Len(dims) - 1) : \E s \in {q \in [1..n -> 1..Len(dims)] : Injective(q)} :
               /\ dims' = [k \in 1..n |-> dims[s[k]]]
               /\ fixed' = Embed(dims, fixed, [i \in 1..Len(dims) |-> 1])
               /\ keep' = Append(keep, s)
          /\ depth' = depth + 1
Next == Reduce
Spec == Init /\ [][Next]_mvars
Points(n) == [1..n -> Coords]
(* evaluating the reductions one inside the other is evaluating the composed one *)
Nested == depth = 2 => \A x \in Points(Len(dims)) :
            LET inner == keep[1]  outer == keep[2]
                mid == Embed(outer, [i \in 1..Len(inner) |-> 1], x)
            IN \A i \in 1..N : (\E k \in 1..Len(inner) : inner[k] = i) =>
                   Embed(dims, fixed, x)[i] = mid[CHOOSE k \in 1..Len(inner) : inner[k] = i]
(* the derivative with respect to a kept variable is the partial derivative *)
(* of the original: central differences of the quartic need two steps       *)
F(x) == Rosen(Embed(dims, fixed, x))
At(x, k, d) == [x EXCEPT ![k] = @ + d]
Chain == \A x \in Points(Len(dims)) : \A k \in 1..Len(dims) :
            12 * DRosen(Embed(dims, fixed, x), dims[k]) = F(At(x, k, -2)) - 8 * F(At(x, k, -1)) + 8 * F(At(x, k, 1)) - F(At(x, k, 2))
============================================================================
