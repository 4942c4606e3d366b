----------------------------- MODULE VfmTrace -----------------------------
EXTENDS Fx, Json, IOUtils
V == INSTANCE Vfm WITH Vals <- {}, Slopes <- {}, NPts <- 0, type <- 0, lf <- 0, hf <- 0, dict <- 0, used <- 0, n <- 0, bridge <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Judge(cfg, s, e) ==
  CASE e.op = "value" ->     \* prediction, reference low-fidelity and bridge values, per output
         Clause(Len(e.y) = cfg.ny, "value-shape")
    \cup Clause(Len(e.y) = cfg.ny => \A j \in 1..cfg.ny : Near(e.y[j], V!Value(cfg.type, e.l[j], e.b[j]), cfg.tol), "value")
    [] e.op = "slope" ->
         Clause(Len(e.d) = Len(e.l), "slope-shape")
    \cup Clause(Len(e.d) = Len(e.l) => \A j \in 1..Len(e.d) : Near(e.d[j], V!Slope(cfg.type, e.l[j], e.dl[j], e.b[j], e.db[j]), cfg.tol), e.what)
    [] e.op = "datum" ->     \* the reference bridge is trained on the discrepancy
         Clause(\A j \in 1..cfg.ny : Near(e.h[j], V!Value(cfg.type, e.l[j], e.b[j]), 10), "harness-bridge-data")
    [] e.op = "datumslope" -> Clause(Near(e.dh, V!Slope(cfg.type, e.l, e.dl, e.b, e.db), 10), "harness-bridge-slope")
    [] e.op = "atdata" -> Clause(NearSeq(e.y, e.h, 500), "high-fidelity-data-not-reproduced")
    [] e.op = "refused" -> Clause(e.res \in {"NotImplementedError", "ValueError"}, "unsupported-derivative-answered")
    [] e.op = "equal" -> Clause(e.ok, e.what)
    [] OTHER -> {"unknown-event"}
Apply(cfg, s, e) == [st |-> s, bad |-> IF e.op = "Crash" THEN {"crash"} ELSE Judge(cfg, s, e)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
