---------------------------- MODULE MfNoiseTrace ----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE MfNoise WITH Ys <- {}, MaxObs <- 0, obs <- <<>>, cnt <- 0, tot <- 0, sq <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    [st |-> IF e.op = "train" THEN e.version ELSE s, bad |->
    CASE e.op = "Crash" -> {"crash"}
      [] e.op = "train" -> Clause(e.kept, "options-or-data-changed")
      (* one event per level: v the noise of each distinct point, obs its standardised observations *)
      [] e.op = "noise" -> Clause(Len(e.v) = Len(e.obs) /\ \A i \in 1..Len(e.v) : P!NoiseIs(e.v[i], e.obs[i], e.declared, 5), "not-the-noise-of-the-observations")
      [] e.op = "declared" -> Clause(NearSeq(e.v, e.n, 3), "not-the-declared-noise")
      [] e.op = "bounds" -> Clause(P!WithinBounds(e.logn, e.lo, e.hi, 2000), "estimate-out-of-bounds")
      [] e.op = "predict" -> Clause(AllNumMat(e.y) /\ AllNumMat(e.v), "not-finite")
            \cup (IF e.known THEN Clause(P!Same(e.y, e.refy, e.tol), "not-the-noisy-model-values") \cup Clause(P!Same(e.v, e.refv, e.tol), "not-the-noisy-model-variance") ELSE {})
      [] e.op = "forced" -> Clause(\A i \in 1..Len(e.v) : Near(e.v[i], 0, e.tol), "variance-at-top-samples-not-zero") \cup Clause(NearMat(e.y, e.refy, e.tol), "smoothed-samples-not-interpolated")
      [] OTHER -> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
