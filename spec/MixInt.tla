----------------------------- MODULE MixInt -----------------------------
(* C11/C12.  Mixed variables.  A type is [t |-> "F"], [t |-> "I"] or       *)
(* [t |-> "E", k |-> levels]; a limit is [lo, hi] (fixed point) for F and I *)
(* variables.  A folded point has one entry per variable (the index of the  *)
(* category, fixed point), an unfolded point one entry per F or I variable  *)
(* and one in [0,1] per category.                                           *)
EXTENDS Fx
CONSTANTS NV, MaxLev, Vals

Width(ty) == IF ty.t = "E" THEN ty.k ELSE 1
RECURSIVE Dim(_)
Dim(types) == IF types = <<>> THEN 0 ELSE Width(types[1]) + Dim(Tail(types))
(* first column of variable i in the unfolded point *)
Off(types, i) == Dim(SubSeq(types, 1, i - 1))
Cols(types, i, u) == SubSeq(u, Off(types, i) + 1, Off(types, i) + Width(types[i]))
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

OneHot(k, j) == [c \in 1..k |-> IF c = j THEN One ELSE 0]
Unfold(types, x) == Flatten([i \in 1..Len(types) |->
    IF types[i].t = "E" THEN OneHot(types[i].k, (x[i] \div One) + 1) ELSE <<x[i]>>])
ArgMax(s) == {j \in 1..Len(s) : \A c \in 1..Len(s) : s[c] <= s[j]}
Fold1(ty, s) == IF ty.t = "E" THEN ((CHOOSE j \in ArgMax(s) : \A c \in ArgMax(s) : j <= c) - 1) * One ELSE s[1]
Fold(types, u) == [i \in 1..Len(types) |-> Fold1(types[i], Cols(types, i, u))]
Limits(types, lim) == Flatten([i \in 1..Len(types) |->
    IF types[i].t = "E" THEN [c \in 1..types[i].k |-> <<0, One>>] ELSE <<lim[i]>>])

(* admissible points *)
AdmU1(ty, lm, s) == CASE ty.t = "F" -> IsNum(s[1]) /\ lm[1] - 5 <= s[1] /\ s[1] <= lm[2] + 5
                      [] ty.t = "I" -> IsNum(s[1]) /\ s[1] % One = 0 /\ lm[1] <= s[1] /\ s[1] <= lm[2]
                      [] ty.t = "E" -> \E j \in 1..ty.k : s = OneHot(ty.k, j)
AdmissibleU(types, lim, u) == Len(u) = Dim(types) /\ \A i \in 1..Len(types) : AdmU1(types[i], lim[i], Cols(types, i, u))
AdmF1(ty, lm, v) == IF ty.t = "E" THEN \E j \in 0..(ty.k - 1) : v = j * One ELSE AdmU1(ty, lm, <<v>>)
AdmissibleF(types, lim, x) == Len(x) = Len(types) /\ \A i \in 1..Len(types) : AdmF1(types[i], lim[i], x[i])

(* y is a cast of the point u: continuous values kept, integers to the nearest, *)
(* one of the heaviest categories *)
Cast1(ty, s, y) == CASE ty.t = "F" -> y = s
                     [] ty.t = "I" -> y[1] % One = 0 /\ 2 * Abs(y[1] - s[1]) <= One
                     [] ty.t = "E" -> \E j \in ArgMax(s) : y = OneHot(ty.k, j)
CastOk(types, u, y) == Len(y) = Len(u) /\ \A i \in 1..Len(types) : Cast1(types[i], Cols(types, i, u), Cols(types, i, y))

(* ---- bounded model: every list of at most NV types, every unfolded point *)
VARIABLES types, u, y
Types == {[t |-> "F"], [t |-> "I"]} \cup {[t |-> "E", k |-> k] : k \in 1..MaxLev}
Lists == UNION {[1..n -> Types] : n \in 1..NV}
Lim(ts) == [i \in 1..Len(ts) |-> <<0, 2 * One>>]
Points(ts) == [1..Dim(ts) -> {v * (One \div 2) : v \in Vals}]
AdmU(ts) == {p \in [1..Dim(ts) -> {0, One, 2 * One}] : AdmissibleU(ts, Lim(ts), p)}
Init == /\ types \in Lists /\ u \in Points(types) /\ y = <<>>
Next == /\ y = <<>> /\ \E z \in [1..Dim(types) -> {v * (One \div 2) : v \in Vals}] : CastOk(types, u, z) /\ y' = z
        /\ UNCHANGED <<types, u>>
Spec == Init /\ [][Next]_<<types, u, y>>
CastAdmissible == y # <<>> => \A i \in 1..Len(types) : types[i].t = "E" => \E j \in 1..types[i].k : Cols(types, i, y) = OneHot(types[i].k, j)
Idempotent == y # <<>> => (CastOk(types, y, y) /\ \A z \in {y, u} : CastOk(types, y, z) => z = y)
RoundTrip == y # <<>> => Unfold(types, Fold(types, y)) = y
FoldAdmissible == y # <<>> => \A i \in 1..Len(types) : types[i].t = "E" => AdmF1(types[i], <<0, 0>>, Fold(types, y)[i])
CastExists == y = <<>> => ENABLED Next
=========================================================================
