------------------------------ MODULE PlsTrace ------------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Pls WITH G <- {}, W <- {}, MaxExtra <- 0, g <- 0, r <- 0, e <- 0, added <- {}
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: the version of the data the model was last trained on, 0 before *)
Start(cfg) == 0
Finite(m) == Len(m) > 0 /\ AllNumMat(m)
Apply(cfg, s, e) ==
    CASE e.op = "Crash" -> [st |-> s, bad |-> {"crash"}]
      [] e.op = "train" -> [st |-> e.version, bad |-> Clause(e.res = "ok", "training-fails") \cup Clause(e.kept, "options-or-data-changed")]
      [] e.op = "predict" ->
         [st |-> s, bad |-> Clause(e.version = s, "harness-out-of-step")
            \cup Clause(Finite(e.y) /\ Finite(e.v), "not-finite")
            \cup (IF e.known THEN Clause(NearMat(e.y, e.refy, e.tol), "not-the-projected-model-values")
                                  \cup Clause(NearMat(e.v, e.refv, e.tol) \/ NearMat(e.v, e.refh, e.tol), "not-the-projected-model-variance") ELSE {})]
      [] e.op = "expand" ->
         [st |-> s, bad |-> Clause(Near(e.y, e.own, e.tol), "training-value-not-reproduced")
            \cup Clause(P!Enriched(e.infl, cfg.extra, [i \in 1..Len(e.at) |-> Near(e.at[i], e.taylor[i], e.tol)], 5), "first-order-point-not-reproduced")]
      [] e.op = "idle" -> [st |-> s, bad |-> Clause(NearMat(e.a, e.b, e.tol), "input-without-influence-used")]
      [] e.op = "weights" -> [st |-> s, bad |-> Clause(P!Parallel(e.w, e.cov, e.tol), "weights-not-along-the-covariances")
            \cup (IF e.unit THEN Clause(P!UnitLength(e.w, 50), "weights-not-normalised") ELSE {})]
      [] e.op = "refine" -> [st |-> s, bad |-> Clause(IsNum(e.full) /\ IsNum(e.projected) /\ e.full + e.tol >= e.projected, "refinement-worse-than-the-projection")]
      [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
