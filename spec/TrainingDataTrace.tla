------------------------ MODULE TrainingDataTrace ------------------------
EXTENDS Fx, Json, IOUtils
T == INSTANCE TrainingData WITH Groups <- {}, MaxOps <- 0, Rows <- {}, Cols <- {}, MaxNx <- 0, model <- 0, st <- 0, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad

Start(cfg) == T!Empty
Ids(s) == {[g |-> p[1], k |-> p[2], x |-> s[p].x.id, y |-> s[p].y.id] : p \in DOMAIN s}
Obs(e) == {e.store[i] : i \in 1..Len(e.store)}

Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE LET r == T!Step(cfg, s, e)
         IN [st |-> r.st,
             bad |-> Clause((e.res = "ok") = (r.res = "ok"), e.op \o "-acceptance")
                \cup Clause(Obs(e) = Ids(r.st), e.op \o "-store")
                \cup Clause(e.nophantom, e.op \o "-phantom-group")
                \cup Clause(e.op # "train" \/ NearMat(e.pred, e.ref, 100), "trained-on-other-data")
                \cup Clause(e.op # "train" \/ e.shape = e.refshape, "trained-shape")]

R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
