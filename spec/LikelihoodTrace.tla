-------------------------- MODULE LikelihoodTrace --------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Likelihood WITH NTheta <- 0, MaxV <- 0, Budget <- 0, V <- 0, start <- 0, cur <- 0, seen <- {}, best <- 0, retries <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    [st |-> s, bad |->
    CASE e.op = "Crash" -> {"crash"}
      [] e.op = "trained" ->
           Clause(P!Within(e.theta, e.lo, e.hi, 3000), "hyperparameters-out-of-bounds")
           \cup (IF e.known THEN Clause(P!Reported(e.value, e.ref, cfg.tol), "not-the-reported-likelihood") ELSE {})
           \cup (IF e.compare THEN Clause(P!NoWorse(e.value, e.start, cfg.tol), "worse-than-the-start") ELSE {})
      [] e.op = "value" -> Clause(P!Reported(e.value, e.ref, cfg.tol), "not-the-likelihood")
      [] e.op = "gradient" -> Clause(P!SlopesOk(e.d, e.q, e.tol), "not-the-gradient")
      [] e.op = "hessian" -> Clause(\A i \in 1..Len(e.d) : P!SlopesOk(e.d[i], e.q[i], e.tol), "not-the-hessian") \cup Clause(P!Symmetric(e.d, 10), "hessian-not-symmetric")
      [] OTHER -> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
