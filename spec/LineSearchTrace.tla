-------------------------- MODULE LineSearchTrace --------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE LineSearch WITH N <- 0, V <- 0, phi <- 0, dphi <- 0, pc <- "", lo <- 0, hi <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash-" \o e.exc}]
    ELSE IF e.res # "ok" THEN [st |-> s, bad |-> {"failed-" \o e.alg \o "-" \o e.res}]
    ELSE LET k1 == e.k1  u2 == e.u2
             sharp == e.tolF <= 2000 /\ e.tolD <= 20000
             br == e.alg \in {"bracketed", "quadratic", "cubic"}
         IN [st |-> s, bad |->
                Clause(e.finite, "not-finite-" \o e.alg)
           \cup Clause(e.finite => IsNum(e.off) /\ e.off <= 10, "off-the-ray-" \o e.alg)
           \cup Clause(e.kept, "arguments-changed-" \o e.alg)
           \cup Clause(e.class, "wrong-search-" \o e.alg)
           \cup Clause(e.alg = "null" /\ e.finite => Near(e.A, One, 2), "null-step")
           \cup Clause(e.alg # "null" /\ e.finite => e.A >= -1 /\ P!Suff(e.A, e.F, k1, e.tolF + 2), "no-decrease-" \o e.alg)
           \cup Clause(e.alg = "backtracking" /\ e.finite /\ sharp => P!FirstHalving(e.A, e.halves, k1, e.tolF + 2), "not-first-halving")
           \cup Clause(br /\ e.finite /\ sharp /\ P!Settles(e.far, k1, u2, e.far.tolF + 2, e.tolD + 2)
                         => P!Wolfe(e.A, e.F, e.D, k1, u2, e.tolF + 2, e.tolD + 2), "not-wolfe-" \o e.alg)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
