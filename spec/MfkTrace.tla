----------------------------- MODULE MfkTrace -----------------------------
EXTENDS Fx, Json, IOUtils
M == INSTANCE Mfk WITH NLow <- 0, Vers <- {}, low <- 0, top <- 0, model <- 0, log <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == [low |-> [i \in {0, 1} |-> 0], top |-> 0, model |-> <<>>]
Put(f, i, v) == [j \in {0, 1} |-> IF j = i THEN v ELSE f[j]]
Refs(e, m) == {k \in 1..Len(e.refs) : e.refs[k].levels = m}
Judge(cfg, s, e) ==
  CASE e.op = "query" ->    \* predictions are those of a fresh model of the data last trained on
         Clause(Refs(e, s.model) # {}, "harness-no-reference")
    \cup Clause(\A k \in Refs(e, s.model) : NearSeq(e.y, e.refs[k].y, e.slack), "values-not-of-trained-data")
    \cup Clause(\A k \in Refs(e, s.model) : NearSeq(e.v, e.refs[k].v, e.slack), "variances-not-of-trained-data")
    [] e.op = "shape" -> Clause(e.mse = <<e.n, Len(s.model)>>, "one-variance-per-level")
                    \cup Clause(e.v = <<e.n, 1>> /\ e.y = <<e.n, 1>>, "prediction-shape")
    [] e.op = "own" ->      \* level e.lvl at a point of its own data
         Clause(e.mu = <<>> \/ Near(e.mu[1], e.h, 1500), "level-data-not-reproduced")
    \cup Clause(e.lvl = Len(s.model) => Near(e.y, e.h, 1500), "top-data-not-reproduced")
    \cup Clause(Near(e.mse, 0, 300), "variance-at-own-data")
    [] e.op = "point" ->    \* variances of every level at any point
         Clause(\A i \in 1..Len(e.mse) : IsNum(e.mse[i]) /\ e.mse[i] >= 0, "negative-variance")
    \cup Clause(Near(e.v, e.mse[Len(e.mse)], 2), "variance-not-of-top-level")
    \cup Clause(\A i \in 2..Len(e.mse) : e.rho2[i - 1] < 0 \/ e.mse[i] + 50 >= M!ChainVar(e.rho2[i - 1], e.mse[i - 1], 0), "variance-below-propagated")
    [] e.op = "ref" ->      \* pinned hyperparameters: recursive universal co-kriging computed apart
         Clause(NearSeq(e.y, e.ref, e.tol), "not-the-cokriging-mean") \cup Clause(NearSeq(e.v, e.refv, e.tol), "not-the-cokriging-variance")
    [] e.op = "single" -> Clause(NearSeq(e.y, e.ref, 300), "single-level-values") \cup Clause(NearSeq(e.v, e.refv, 300), "single-level-variances")
    [] e.op = "affine" ->   \* top data = rho times low data plus constant
         Clause(Near(e.y, M!Chain(e.rho, e.below, e.delta), e.tol), "levels-not-chained")
    [] e.op = "slope" -> Clause(\A j \in 1..Len(e.d) : Near(e.d[j], e.q[j], 400), "not-the-derivative")
    [] e.op = "equal" -> Clause(e.ok, e.what)
    [] e.op = "train" -> Clause(e.res = "ok", "training-failed")
    [] e.op \in {"low", "top"} -> {}
    [] OTHER -> {"unknown-event"}
Step(s, e) ==
  CASE e.op = "low" -> [s EXCEPT !.low = Put(s.low, e.i, e.v)]
    [] e.op = "top" -> [s EXCEPT !.top = e.v]
    [] e.op = "train" -> [s EXCEPT !.model = M!Levels(s.low, s.top)]
    [] OTHER -> s
Apply(cfg, s, e) == IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}] ELSE [st |-> Step(s, e), bad |-> Judge(cfg, s, e)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
