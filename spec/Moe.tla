------------------------------- MODULE Moe -------------------------------
(* C18/C19.  Mixture of experts.  Expert kinds have capabilities; the       *)
(* enabled ones satisfy the requested support and the allow and deny lists.  *)
(* Each cluster takes the enabled expert of smallest validation error and    *)
(* trains it on all its points; predictions are recombined by the cluster    *)
(* probabilities.                                                           *)
EXTENDS Fx
CONSTANTS Kinds, NC, Errs

AllKinds == {"KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW", "RMTB", "RMTC"}
HasVariance(k) == k \in {"KRG", "KPLS", "KPLSK"}
HasDerivs(k) == k \in AllKinds
Enabled(of, der, var, allow, deny) ==
    {k \in of : (der => HasDerivs(k)) /\ (var => HasVariance(k)) /\ (allow = {} \/ k \in allow) /\ k \notin deny}

RECURSIVE DotTo(_, _, _)
DotTo(p, v, n) == IF n = 0 THEN 0 ELSE Mul(p[n], v[n]) + DotTo(p, v, n - 1)
Dot(p, v) == DotTo(p, v, Len(p))
Square(p) == [j \in 1..Len(p) |-> Mul(p[j], p[j])]
IsDistribution(p, tol) == /\ \A j \in 1..Len(p) : IsNum(p[j]) /\ 0 <= p[j] /\ p[j] <= One + tol
                          /\ Near(SumSeq(p), One, tol)
Smooth(p, v) == Dot(p, v)
SmoothVar(p, w) == Dot(Square(p), w)
MostProbable(p, slack) == {j \in 1..Len(p) : \A k \in 1..Len(p) : p[k] <= p[j] + slack}

(* ---- bounded model: choosing experts for clusters one by one *)
VARIABLES opts, err, chosen
vars == <<opts, err, chosen>>
Init == /\ opts \in [allow : SUBSET Kinds, deny : SUBSET Kinds, var : BOOLEAN]
        /\ err \in [1..NC -> [Kinds -> Errs]] /\ chosen = <<>>
On == Enabled(Kinds, FALSE, opts.var, opts.allow, opts.deny)
Choose == /\ Len(chosen) < NC /\ On # {}
          /\ \E k \in On : (\A j \in On : err[Len(chosen) + 1][k] <= err[Len(chosen) + 1][j]) /\ chosen' = Append(chosen, k)
          /\ UNCHANGED <<opts, err>>
Next == Choose
Spec == Init /\ [][Next]_vars
OnlyEnabled == \A c \in 1..Len(chosen) : chosen[c] \notin opts.deny /\ (opts.allow = {} \/ chosen[c] \in opts.allow) /\ (opts.var => HasVariance(chosen[c]))
Smallest == \A c \in 1..Len(chosen) : ~ \E j \in On : err[c][j] < err[c][chosen[c]]
CanChoose == On # {} /\ Len(chosen) < NC => ENABLED Next
(* recombination stays within the range of the experts *)
Hull == \A a \in {0, 250000, One} : \A v \in [1..2 -> {0, One, 2 * One}] :
           Smooth(<<a, One - a>>, v) >= Min2(v[1], v[2]) - 2 /\ Smooth(<<a, One - a>>, v) <= Max2(v[1], v[2]) + 2
=========================================================================
