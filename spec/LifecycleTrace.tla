-------------------------- MODULE LifecycleTrace --------------------------
EXTENDS Fx, Json, IOUtils
L == INSTANCE Lifecycle WITH MaxOps <- 0, kind <- "-", s <- 0, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == L!Start0(cfg.kind)

Same(a, b) == DOMAIN a = DOMAIN b /\ \A p \in DOMAIN a : NearMat(a[p], b[p], 1) \/ (a[p] = b[p])
Apply(cfg, x, e) ==
    IF e.op = "Crash" THEN [st |-> x, bad |-> {"crash"}]
    ELSE LET y == L!Step(x, e) IN
         [st |-> y,
          bad |-> Clause(e.opts = y.opt, e.op \o "-options")              \* every option reads as last set
             \cup Clause(e.objs, e.op \o "-option-objects")               \* the objects given as option values are untouched
             \cup Clause(e.data, e.op \o "-data")                         \* stored training data as last set
             \cup Clause(e.op # "train" \/ e.want = [data |-> x.data, opt |-> x.opt], "harness")
             \cup Clause(e.op # "train" \/ e.res = e.refres, "train-outcome")
             \cup Clause(e.op # "train" \/ Same(e.pred, e.ref), "train-history-dependent")
             \cup Clause(e.op \notin {"setdata", "updatey"} \/ Same(e.still, e.said), "answers-follow-untrained-data")  \* the model is the one trained last
             \cup Clause(e.op # "train" \/ Same(e.pred2, e.ref), "retrain-different")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
