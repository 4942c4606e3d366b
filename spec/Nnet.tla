------------------------------- MODULE Nnet -------------------------------
(* C27.  The pieces a gradient-enhanced network is trained with: the       *)
(* training cost and its gradient, the split of an epoch into mini-batches,*)
(* the normalisation of the data, and the optimisers (gradient descent and *)
(* Adam with a backtracking line search), which are state machines.        *)
EXTENDS Fx
CONSTANTS Grads, Sizes, MaxT

(* ---- cost: 1/(2m) [ |y - yp|^2 + lambda |w|^2 + gamma |dy - dyp|^2 ]     *)
(* parts in fixed point; lambda, gamma fixed point                          *)
Cost2m(sy, sw, sd, lambda, gamma) == sy + Mul(lambda, sw) + Mul(gamma, sd)

(* ---- mini-batches: every example once, batches full except the last      *)
Partition(m, size, batches) ==
    LET all == {i : i \in 1..m}
        flat == UNION {{batches[b][i] : i \in 1..Len(batches[b])} : b \in 1..Len(batches)}
        s == Min2(size, m)
    IN  /\ flat = all
        /\ SumSeq([b \in 1..Len(batches) |-> Len(batches[b])]) = m
        /\ Len(batches) = (m + s - 1) \div s
        /\ \A b \in 1..Len(batches) : Len(batches[b]) = s \/ (b = Len(batches) /\ Len(batches[b]) \in 1..s)

(* ---- optimisers.  V and S accumulate b V + g and b S + g g, so that the  *)
(* bias-corrected moments are V (1 - b) / (1 - b^t)                         *)
NewV(V, g, b1) == [i \in 1..Len(V) |-> Mul(b1, V[i]) + g[i]]
NewS(S, g, b2) == [i \in 1..Len(S) |-> Mul(b2, S[i]) + Mul(g[i], g[i])]
(* r certifies the root of the corrected second moment                      *)
RootOk(r, s, tol) == r >= 0 /\ Abs(Mul(r, r) - s) <= tol
(* the corrected moment times (1 - b^t) / (1 - b) is the accumulated one    *)
Gain(b) == One \div (One - b)
CorrOk(c, V, b, pw, tol) == Abs(Mul(c, Gain(b) * (One - pw)) - V) <= tol
(* the line search only halves the learning rate: the mantissa of the part  *)
(* of the whole step that is taken is 1/2 (or all but 1)                     *)
PowerOfTwo(man, tol) == Abs(man - 500000) <= tol \/ man >= One - tol

(* ---- bounded model: one weight, moments with b = 1/2 kept as exact       *)
(* integers num = sum 2^(i-1) g_i, den = 2^t - 1; the line search tries     *)
(* steps without touching them                                              *)
VARIABLES t, num, den, gs, tries, cost, batches
mvars == <<t, num, den, gs, tries, cost, batches>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Split(perm, s) == [b \in 1..((Len(perm) + s - 1) \div s) |-> SubSeq(perm, (b - 1) * s + 1, Min2(b * s, Len(perm)))]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Init == t = 0 /\ num = 0 /\ den = 0 /\ gs = <<>> /\ tries = 0 /\ cost = 8 /\ \E n \in Sizes : \E p \in Perms(n) : \E s \in 1..(n + 1) : batches = <<n, s, Split(p, Min2(s, n))>>
Grad == /\ tries = 0 /\ t < MaxT
        /\ \E g \in Grads : num' = num + Pow2(t) * g /\ den' = den + Pow2(t) /\ gs' = Append(gs, g)
        /\ t' = t + 1 /\ tries' = 1 /\ UNCHANGED <<cost, batches>>
Reject == tries \in 1..2 /\ tries' = tries + 1 /\ UNCHANGED <<t, num, den, gs, cost, batches>>
Accept == tries > 0 /\ cost > 0 /\ \E c \in 0..(cost - 1) : cost' = c /\ tries' = 0 /\ UNCHANGED <<t, num, den, gs, batches>>
GiveUp == tries = 3 /\ tries' = 0 /\ UNCHANGED <<t, num, den, gs, cost, batches>>
Next == Grad \/ Reject \/ Accept \/ GiveUp
Spec == Init /\ [][Next]_mvars
(* the corrected moment is an average of the gradients seen                 *)
Average == t > 0 => /\ den = Pow2(t) - 1
                    /\ num <= den * MaxSeq(gs) /\ num >= den * MinSeq(gs)
Descends == [][cost' <= cost]_mvars
FirstIsGradient == t = 1 => num = den * gs[1]
Splits == Partition(batches[1], batches[2], batches[3])
===========================================================================
