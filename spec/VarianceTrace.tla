--------------------------- MODULE VarianceTrace ---------------------------
EXTENDS Fx, Json, IOUtils
V == INSTANCE Variance WITH Line <- {}, Scales <- {}, data <- 0, scale <- 0, at <- 0
G == INSTANCE Derivs WITH CoefMax <- 0, Steps <- {}, c <- 0, x <- 0, h <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: for each probe point its variance in units of (output scale)^2   *)
Start(cfg) == [base |-> <<>>]
Bad(s, b) == [st |-> s, bad |-> b]
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN Bad(s, {"crash"})
    ELSE IF e.res # "ok" THEN Bad(s, {"refused-" \o e.op})
    ELSE IF e.op = "train" THEN
        Bad(IF s.base = <<>> THEN [base |-> e.probe] ELSE s,
            Clause(s.base # <<>> => Len(e.probe) = Len(s.base) /\ \A i \in 1..Len(s.base) : V!Quadratic(e.probe[i], s.base[i], cfg.stol), "not-quadratic-in-scale"))
    ELSE IF e.op = "atdata" THEN
        Bad(s, Clause(\A i \in 1..Len(e.rows) : V!Zero(e.rows[i], cfg.tol), "not-zero-at-data")
          \cup Clause(\A i \in 1..Len(e.sign) : V!NonNegative(e.sign[i]), "negative-variance"))
    ELSE IF e.op = "ask" THEN
        Bad(s, Clause(Len(e.row) = cfg.ny /\ AllNum(e.row), "not-finite-" \o e.what)
          \cup Clause(V!NonNegative(e.sign), "negative-variance")
          \cup Clause(e.away => V!Positive(e.sign), "not-positive-away")
          \cup Clause(e.far => \A j \in 1..Len(e.row) : e.row[j] >= 10000, "too-small-far-away"))
    ELSE  \* slope
        Bad(s, Clause(Len(e.d) = cfg.ny /\ Len(e.q) = cfg.ny, "shape")
          \cup Clause(\A j \in 1..Len(e.d) : IsNum(e.d[j]), "derivative-not-finite-" \o e.what)
          \cup Clause(\A j \in 1..Len(e.d) : G!Clipped(e.d[j], e.q[j]) \/ (IF cfg.kinks THEN G!KinkOk(e.d[j], e.q[j], cfg.dtol) ELSE G!SlopeOk(e.d[j], e.q[j], cfg.dtol)), "not-the-variance-derivative-" \o e.what))
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
