---------------------------- MODULE RadialTrace ----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Radial WITH Pos <- {}, Ys <- {}, x <- 0, y <- 0, q <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
W(e) == IF e.exact THEN P!Weights(e.d2, e.half) ELSE e.w
Apply(cfg, s, e) ==
    [st |-> IF e.op = "train" THEN e.version ELSE s, bad |->
    CASE e.op = "Crash" -> {"crash"}
      [] e.op = "train" -> Clause(e.ok, "training-fails")
      [] e.op = "average" -> Clause(\A j \in 1..Len(e.y) : P!IsAverage(e.y[j], W(e), e.ys[j], e.tol), "not-the-weighted-average-" \o e.where)
      [] e.op = "share" -> Clause(\A j \in 1..Len(e.s) : P!IsShare(e.s[j], W(e), e.tol), "not-the-weight-" \o e.where)
      [] e.op = "combination" -> Clause(\A j \in 1..Len(e.y) : P!IsCombination(e.y[j], e.phi, e.c[j], e.f, e.b[j], e.tol), "not-the-declared-combination-" \o e.where)
      [] e.op = "slope" -> Clause(\A j \in 1..Len(e.y) : P!IsCombination(e.y[j], e.phi, e.c[j], e.f, e.b[j], e.tol), "not-the-slope-of-the-combination-" \o e.where)
      [] e.op = "equal" -> Clause(NearMat(e.a, e.b, e.tol), e.what \o "-" \o e.where)
      [] OTHER -> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
