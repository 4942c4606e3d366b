---------------------------- MODULE ErrorsTrace ----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Errors WITH Vals <- {}, N <- 0, p <- 0, y <- 0, a <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE LET w == P!Wanted(e.req, {cfg.trained[i] : i \in 1..Len(cfg.trained)}) IN
      [st |-> s, bad |-> Clause(e.kept, "model-or-data-changed")
        \cup (IF w.data = "refused" THEN Clause(e.res # "ok", "accepts-missing-training-derivatives")
              ELSE IF e.res # "ok" THEN {"refused-" \o w.data}
              ELSE Clause(e.scalar, "not-a-number") \cup Clause(P!IsMeasure(e.r, e.p, e.y, 60 + 20 * Len(e.y)), "not-the-error-" \o w.data \o (IF w.what = -1 THEN "" ELSE "-derivative")))]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
