---------------------------- MODULE CacheTrace ----------------------------
EXTENDS Fx, Json, IOUtils
C == INSTANCE Cache WITH Inputs <- {}, MaxRuns <- 0, file <- 0, answer <- 0, computed <- 0, n <- 0, dirs <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == [i \in 1..150 |-> "none"]
Judge(cfg, s, e) ==
  CASE e.op = "run" ->   \* e.res: done, raised, crashed;  e.hit: outputs came from the cache
         Clause(e.got = e.res, "run-" \o e.res \o "-but-" \o e.got)
    \cup Clause(e.hit => C!Hit(s[e.i], e.dir), IF e.dir THEN "reused-without-a-good-file" ELSE "read-without-directory")
    \cup Clause(C!Hit(s[e.i], e.dir) => e.hit, "saved-result-not-loaded")
    \cup Clause(e.res = "done" => e.out = e.fresh, "not-the-fresh-result")
    \cup Clause(~e.dir => ~e.wrote, "wrote-without-directory")
    \cup Clause(e.dir /\ e.res = "raised" => ~e.wrote, "failed-run-saved")
    [] e.op = "model" ->   \* a trained model against one trained without cache
         Clause(e.res = "ok", "cached-training-failed")
    \cup Clause(e.res = "ok" => NearSeq(e.y, e.ref, 5), "cached-predictions-differ")
    \cup Clause(e.res = "ok" => NearSeq(e.d, e.refd, 5), "cached-derivatives-differ")
    \cup Clause(e.res = "ok" => NearSeq(e.o, e.refo, 5), "cached-output-derivatives-differ")
    [] e.op = "again" -> Clause(e.newfiles = 0, "saved-model-not-loaded")
    [] e.op = "equal" -> Clause(e.ok, e.what)
    [] e.op = "fault" -> {}
    [] OTHER -> {"unknown-event"}
Step(s, e) ==
  CASE e.op = "run" -> [s EXCEPT ![e.i] = C!After(s[e.i], e.dir, e.res)]
    [] e.op = "fault" -> IF s[e.i] = "none" THEN s ELSE [s EXCEPT ![e.i] = e.to]
    [] OTHER -> s
Apply(cfg, s, e) == IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}] ELSE [st |-> Step(s, e), bad |-> Judge(cfg, s, e)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
