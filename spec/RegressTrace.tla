---------------------------- MODULE RegressTrace ---------------------------
EXTENDS Fx, Json, IOUtils
G == INSTANCE Regress WITH Line <- {}, Vals <- {}, pts <- 0, phase <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: the polynomials of the last training data (none for general data) and its points *)
Start(cfg) == [polys |-> <<>>, x |-> <<>>]
Expect(s, e) == [i \in 1..Len(e.x) |-> [j \in 1..Len(s.polys) |-> G!Eval(s.polys[j], e.x[i]) * e.unit]]
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op = "train" THEN
         [st |-> [polys |-> e.polys, x |-> e.x], bad |-> Clause(e.res = "ok", "train-failed")
            \cup Clause(\A j \in 1..Len(e.polys) : G!InSpace(e.polys[j], cfg.deg), "harness")]
    ELSE IF e.op = "few" THEN
         [st |-> s, bad |-> Clause(e.n < G!Size(cfg.deg, cfg.n), "harness") \cup Clause(e.res # "ok", "accepts-fewer-points-than-coefficients")]
    ELSE IF e.op = "slope" THEN
         [st |-> s, bad |-> Clause(e.res = "ok" /\ NearMat(e.rows, [i \in 1..Len(e.x) |-> [j \in 1..Len(s.polys) |-> G!EvalSlope(s.polys[j], e.x[i], e.k) * e.unit]], cfg.tol), "derivative-not-exact-on-its-space")]
    ELSE IF e.op = "ask" THEN
         [st |-> s, bad |-> Clause(e.res = "ok" /\ NearMat(e.rows, Expect(s, e), cfg.tol), "not-exact-on-its-space")]
    ELSE [st |-> s, bad |-> Clause(e.res = "ok" /\ \A j \in 1..Len(e.r) : \A b \in G!Basis(cfg.deg, cfg.n) : G!Orthogonal(e.r[j], s.x, b), "residual-not-orthogonal")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
