--------------------------- MODULE PredictTrace ---------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Predict WITH Methods <- {}, Points <- {}, MaxLen <- 0, MaxOps <- 0, f <- 0, st <- 0, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == P!Empty
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op = "badwidth" THEN [st |-> s, bad |-> Clause(e.res # "ok", "wrong-width-accepted")]
    ELSE IF e.res # "ok" THEN [st |-> s, bad |-> {"refused-" \o e.kind}]
    ELSE [st |-> P!Learn(s, e),
          bad |-> Clause(P!OneRowPerPoint(e), "rows-" \o e.kind)
             \cup Clause(P!Width(e, e.width), "columns-" \o e.kind)
             \cup Clause(P!Finite(e), "finite-" \o e.kind)
             \cup Clause(P!Consistent(s, e, cfg.tol), "row-depends-on-batch-or-history-" \o e.kind)
             \cup Clause(e.xsame, "points-changed-" \o e.kind)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
