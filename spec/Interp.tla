------------------------------ MODULE Interp ------------------------------
(* C05.  An interpolating surrogate is trained on a map from points to      *)
(* values; wherever that map is defined its prediction is that value.      *)
(* Inverse-distance weighting is also a convex combination of the values.  *)
(* The model part is an exact (rational) inverse-distance predictor on an   *)
(* integer line: TLC checks that it has both properties for every data set.*)
EXTENDS Fx
CONSTANTS Line, Vals

(* the training map of a trace: the rows of the last accepted data set; a  *)
(* repeated point keeps one of its values and is not constrained           *)
Unique(d, i) == \A j \in 1..Len(d.x) : j # i => d.x[j] # d.x[i]
Known(d, p) == {i \in 1..Len(d.x) : d.x[i] = p}

Reproduced(d, i, row, tol) == NearSeq(row, d.y[i], tol)
Between(d, row, tol) ==
    \A k \in 1..Len(row) : LET c == Col(d.y, k) IN IsNum(row[k]) /\ row[k] >= MinSeq(c) - tol /\ row[k] <= MaxSeq(c) + tol

(* ---- bounded model: data \in [points -> values], p = 2 *)
VARIABLES data, phase, at
vars == <<data, phase, at>>
Sq(a) == a * a
RECURSIVE Prod(_)
Prod(S) == IF S = {} THEN 1 ELSE LET e == CHOOSE e \in S : TRUE IN e[2] * Prod(S \ {e})
Weight(i, x) == Prod({<<j, Sq(x - j)>> : j \in DOMAIN data \ {i}})
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + Total(S \ {e}, f)
Num(x) == Total(DOMAIN data, [i \in DOMAIN data |-> Weight(i, x) * data[i]])
Den(x) == Total(DOMAIN data, [i \in DOMAIN data |-> Weight(i, x)])

Init == data \in UNION {[D -> Vals] : D \in SUBSET Line \ {{}}} /\ phase = "set" /\ at = 0
Train == phase = "set" /\ phase' = "trained" /\ UNCHANGED <<data, at>>
Predict == phase = "trained" /\ at' \in Line /\ UNCHANGED <<data, phase>>
Next == Train \/ Predict
Spec == Init /\ [][Next]_vars
Interpolates == at \in DOMAIN data => Num(at) = data[at] * Den(at)
Convex == /\ Den(at) > 0
          /\ \E i \in DOMAIN data : data[i] * Den(at) <= Num(at)
          /\ \E i \in DOMAIN data : data[i] * Den(at) >= Num(at)
=========================================================================
