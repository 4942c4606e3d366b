---------------------------- MODULE LineSearch ----------------------------
(* C24.  Line searches along phi(a) = f(x + a d).  Observations are scaled: *)
(* A = a/a0, F = (phi(a) - phi(0)) / (a0 |phi'(0)|), D = phi'(a)/|phi'(0)|, *)
(* so that phi'(0) = -One; k1 = 1/u1.  A and F may be divided by one scale. *)
EXTENDS Fx
CONSTANTS N, V

Suff(A, F, k1, tol) == IsNum(F) /\ F <= -(A \div k1) + tol
NotSuff(A, F, k1, tol) == IsNum(F) /\ F > -(A \div k1) + tol
Flat(D, u2, tol) == IsNum(D) /\ Abs(D) <= u2 + tol
Wolfe(A, F, D, k1, u2, tf, td) == Suff(A, F, k1, tf) /\ Flat(D, u2, td)

(* if the farthest trial already violates the decrease condition, or is    *)
(* not steeply descending, a strong Wolfe step lies before it               *)
Settles(far, k1, u2, tf, td) ==
    \/ NotSuff(far.A, far.F, k1, tf)
    \/ Suff(far.A, far.F, k1, 0) /\ IsNum(far.D) /\ far.D > -u2 + td

(* backtracking: the first of a0, a0/2, a0/4, ... with sufficient decrease; *)
(* samples[k+1] = F at a0/2^k divided by 2^-k                               *)
RECURSIVE Halved(_, _)
Halved(v, k) == IF k = 0 THEN v ELSE Halved(v, k - 1) \div 2
FirstHalving(A, samples, k1, tf) ==
    \/ \E k \in 1..Len(samples) :
          /\ Near(A, Halved(One, k - 1), 1)
          /\ Suff(One, samples[k], k1, tf)
          /\ \A j \in 1..(k - 1) : ~Suff(One, samples[j], k1, -tf)
    \/ \A k \in 1..Len(samples) : ~Suff(One, samples[k], k1, -tf)

(* ---- bounded model: bracketing and zooming by bisection on a grid 0..N,  *)
(* for every function with phi(0) = 0 and phi'(0) = -2; u1 = 1/8, u2 = 1/2  *)
VARIABLES phi, dphi, pc, lo, hi
mvars == <<phi, dphi, pc, lo, hi>>
Dec(a) == 4 * phi[a] <= -a
Flt(a) == Abs(dphi[a]) <= 1
Init == /\ phi \in {f \in [0..N -> -V..V] : f[0] = 0}
        /\ dphi \in {f \in [0..N -> {-2, 0, 2}] : f[0] = -2}
        /\ pc = "bracket" /\ lo = 0 /\ hi = 1
Bracket == /\ pc = "bracket" /\ UNCHANGED <<phi, dphi>>
           /\ IF ~Dec(hi) \/ phi[hi] > phi[lo] THEN pc' = "zoom" /\ lo' = lo /\ hi' = hi
              ELSE IF Flt(hi) THEN pc' = "done" /\ lo' = hi /\ hi' = hi
              ELSE IF dphi[hi] >= 0 THEN pc' = "zoom" /\ lo' = hi /\ hi' = lo
              ELSE IF 2 * hi > N THEN pc' = "out" /\ lo' = hi /\ hi' = hi
              ELSE pc' = "bracket" /\ lo' = hi /\ hi' = 2 * hi
Zoom == /\ pc = "zoom" /\ UNCHANGED <<phi, dphi>>
        /\ LET a == (lo + hi) \div 2
           IN IF Abs(hi - lo) <= 1 THEN pc' = "done" /\ lo' = lo /\ hi' = hi
              ELSE IF ~Dec(a) \/ phi[a] > phi[lo] THEN pc' = "zoom" /\ lo' = lo /\ hi' = a
              ELSE IF Flt(a) THEN pc' = "done" /\ lo' = a /\ hi' = a
              ELSE pc' = "zoom" /\ lo' = a /\ hi' = IF dphi[a] * (hi - lo) >= 0 THEN lo ELSE hi
Next == Bracket \/ Zoom
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
LowDecreases == Dec(lo)
DownhillInside == pc = "zoom" => dphi[lo] * (hi - lo) < 0 /\ (~Dec(hi) \/ phi[hi] >= phi[lo])
Result == pc = "done" => (Dec(lo) /\ Flt(lo)) \/ Abs(hi - lo) = 1
OutOnlyDescending == pc = "out" => Dec(lo) /\ dphi[lo] = -2
Terminates == <>(pc \in {"done", "out"})
============================================================================
