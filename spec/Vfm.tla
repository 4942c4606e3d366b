------------------------------- MODULE Vfm -------------------------------
(* C20.  Variable-fidelity bridge: the prediction is the low-fidelity model *)
(* plus (additive) or times (multiplicative) a bridge model trained on the  *)
(* discrepancy of the high-fidelity data.  The caller's option dictionaries *)
(* are only read.                                                          *)
EXTENDS Fx
CONSTANTS Vals, Slopes, NPts

Value(type, l, b) == IF type = "Additive" THEN l + b ELSE Mul(l, b)
Slope(type, l, dl, b, db) == IF type = "Additive" THEN dl + db ELSE Mul(dl, b) + Mul(l, db)

(* ---- bounded model, in whole units: two builds from one set of dictionaries *)
Signed(S) == S \cup {-v : v \in S}
VARIABLES type, lf, hf, dict, used, n, bridge
vars == <<type, lf, hf, dict, used, n, bridge>>
(* exact rationals as <<numerator, denominator>> with positive denominators *)
Sgn(a) == IF a < 0 THEN -1 ELSE 1
Datum(t, l, h) == IF t = "Additive" THEN <<h - l, 1>> ELSE <<h * Sgn(l), Abs(l)>>
DatumSlope(t, l, dl, h, dh) == IF t = "Additive" THEN <<dh - dl, 1>> ELSE <<dh * l - h * dl, l * l>>
ValueQ(t, l, b) == IF t = "Additive" THEN <<l * b[2] + b[1], b[2]>> ELSE <<l * b[1], b[2]>>
SlopeQ(t, l, dl, b, db) == IF t = "Additive" THEN <<dl * db[2] + db[1], db[2]>>
                           ELSE <<dl * b[1] * db[2] + l * db[1] * b[2], b[2] * db[2]>>
Flags == {"absent", "yes", "no"}
Init == /\ type \in {"Additive", "Multiplicative"} /\ lf \in [1..NPts -> [v : Signed(Vals) \ {0}, d : Slopes]]
        /\ hf \in [1..NPts -> [v : Signed(Vals), d : Slopes]] /\ dict \in [LF : Flags, B : Flags, shared : BOOLEAN]
        /\ used = <<>> /\ n = 0 /\ bridge = <<>>
Flag(which) == IF dict.shared THEN dict.LF ELSE dict[which]
Build == /\ n < 2 /\ n' = n + 1
         /\ used' = Append(used, <<Flag("LF") = "yes", Flag("B") = "yes">>)
         /\ bridge' = [i \in 1..NPts |-> [v |-> Datum(type, lf[i].v, hf[i].v), d |-> DatumSlope(type, lf[i].v, lf[i].d, hf[i].v, hf[i].d)]]
         /\ UNCHANGED <<type, lf, hf, dict>>
Next == Build
Spec == Init /\ [][Next]_vars
SameTwice == n = 2 => used[1] = used[2]
Untouched == [][dict' = dict]_vars
Reproduces == n > 0 => \A i \in 1..NPts : LET q == ValueQ(type, lf[i].v, bridge[i].v) IN q[1] = hf[i].v * q[2]
ReproducesSlope == n > 0 => \A i \in 1..NPts : LET q == SlopeQ(type, lf[i].v, lf[i].d, bridge[i].v, bridge[i].d) IN q[1] = hf[i].d * q[2]
=========================================================================
