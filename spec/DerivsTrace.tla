---------------------------- MODULE DerivsTrace ----------------------------
EXTENDS Fx, Json, IOUtils
G == INSTANCE Derivs WITH CoefMax <- 0, Steps <- {}, c <- 0, x <- 0, h <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.res # "ok" THEN [st |-> s, bad |-> {"refused-" \o e.what}]
    ELSE [st |-> s + 1,
          bad |-> Clause(Len(e.d) = cfg.ny /\ Len(e.q) = cfg.ny, "shape-" \o e.what)
             \cup Clause(\A j \in 1..Len(e.d) : G!Clipped(e.d[j], e.q[j]) \/ G!SlopeOk(e.d[j], e.q[j], cfg.tol), "not-the-derivative-" \o e.what)
             \cup Clause(\A j \in 1..Len(e.d) : IsNum(e.d[j]), "not-finite-" \o e.what)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
