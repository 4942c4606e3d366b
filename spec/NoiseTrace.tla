----------------------------- MODULE NoiseTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Noise WITH Corrs <- {}, Noises <- {}, Ys <- {}, c <- 0, v <- 0, w <- 0, y1 <- 0, y2 <- 0, y3 <- 0, qa <- 0, qb <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: the weights and outputs of the current fit, none before *)
None == [fit |-> FALSE, g |-> <<>>]
Start(cfg) == None
Finite(m) == Len(m) > 0 /\ AllNumMat(m)
Apply(cfg, s, e) ==
    CASE e.op = "Crash" -> [st |-> s, bad |-> {"crash"}]
      [] e.op = "train" ->
         [st |-> s, bad |-> IF e.res # "ok" THEN {"training-fails"} ELSE
            Clause(e.kept, "options-or-data-changed")
            \cup (IF cfg.how = "estimated" THEN Clause(P!WithinBounds(e.logn, e.lo, e.hi, 2000), "estimate-out-of-bounds")
                  ELSE Clause(NearSeq(e.noise, cfg.noise, 3), "not-the-declared-noise"))]
      [] e.op = "fit" ->
         (* g: residuals divided by the noise, one sequence per output; f: trend functions at the data *)
         [st |-> IF e.res = "ok" /\ e.informative THEN [fit |-> TRUE, g |-> e.g] ELSE s,
          bad |-> IF e.res # "ok" THEN {"prediction-fails"} ELSE
            Clause(Finite(e.m), "not-finite")
            \cup (IF e.informative THEN Clause(\A j \in 1..Len(e.g) : P!Unbiased(e.f, e.g[j], cfg.tol), "residuals-not-orthogonal-to-the-trend") ELSE {})
            \cup Clause(\A i \in 1..Len(e.exact) : \A j \in 1..Len(e.m[e.exact[i]]) : Near(e.m[e.exact[i]][j], e.y[e.exact[i]][j], e.itol), "point-without-noise-not-interpolated")]
      [] e.op = "line" ->
         [st |-> s, bad |-> IF e.res # "ok" THEN {"prediction-fails"} ELSE
            Clause(Finite(e.m), "not-finite")
            \cup (IF s.fit THEN Clause(\A j \in 1..Len(s.g) : P!IsTrend(P!TrendPart(e.m[j], e.r, s.g[j]), cfg.poly, cfg.tol), "not-the-kriging-predictor") ELSE {})]
      [] e.op = "variance" ->
         [st |-> s, bad |-> IF e.res # "ok" THEN {"variance-fails"} ELSE
            Clause(Finite(e.v) /\ \A i \in 1..Len(e.v) : \A j \in 1..Len(e.v[i]) : e.v[i][j] >= 0, "variance-not-finite-or-negative")
            \cup (IF e.known THEN Clause(NearMat(e.v, e.ref, cfg.vtol), "not-the-kriging-variance") ELSE {})]
      [] e.op = "order" ->
         [st |-> s, bad |-> IF e.res # "ok" THEN {"training-fails"} ELSE Clause(NearMat(e.a, e.b, e.tol), "depends-on-the-order-of-points")]
      [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
