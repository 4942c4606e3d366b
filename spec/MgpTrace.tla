------------------------------ MODULE MgpTrace ------------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Mgp WITH Coords <- {}, Moves <- 0, a <- 0, X <- 0, y <- 0, q <- 0, p0 <- 0, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    [st |-> s, bad |->
    CASE e.op = "Crash" -> {"crash"}
      [] e.op = "values" ->
           Clause(NearSeq(e.atx, e.ref, cfg.tol), "not-the-prediction")
           \cup Clause(NearSeq(e.atu, e.lift, cfg.tol), "values-at-the-projection")
      [] e.op = "variances" ->
           Clause(NearSeq(e.s, e.ref, cfg.vtol), "not-the-kriging-variance")
           \cup Clause(NearSeq(e.us, e.ls, cfg.vtol) /\ NearSeq(e.uv, e.lv, cfg.mtol), "variances-at-the-projection")
           \cup Clause(NearSeq(e.alone, e.v, 1), "variance-depends-on-both")
           \cup Clause(\A i \in 1..Len(e.v) : e.known[i] => P!InflatedEnough(e.v[i], e.s[i], 10), "uncertainty-of-the-directions-removed")
           \cup Clause(\A i \in 1..Len(e.v) : e.known[i] => Near(e.v[i], P!Marginal(e.s[i], e.z[i], e.zz[i]), cfg.mtol), "not-the-marginal-variance")
      [] e.op = "roundtrip" -> Clause(NearMat(e.u, e.back, 10), "projection-not-inverse-of-lift") \cup Clause(NearMat(e.u2, e.sum, 20), "projection-not-linear")
      [] e.op = "slide" -> Clause(NearSeq(e.v, e.slid, cfg.tol), "sees-hidden-directions") \cup Clause(NearSeq(e.w, e.wslid, cfg.vtol), "variance-sees-hidden-directions")
      [] e.op = "alone" -> Clause(NearSeq(e.v, e.one, 2), "depends-on-other-points") \cup Clause(NearSeq(e.w, e.wone, 20), "variance-depends-on-other-points")
      [] e.op = "data" -> Clause(NearSeq(e.v, e.y, 100), "training-value-not-reproduced") \cup Clause(\A i \in 1..Len(e.w) : Near(e.w[i], 0, 1000), "variance-at-training-points")
      [] e.op = "refused" -> Clause(e.res = "ValueError", "accepts-wrong-dimension")
      [] e.op = "retrain" -> Clause(NearSeq(e.v, e.ref, 20), "retraining-differs")
      [] OTHER -> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
