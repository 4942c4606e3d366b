---------------------------- MODULE InterpTrace ----------------------------
EXTENDS Fx, Json, IOUtils
I == INSTANCE Interp WITH Line <- {}, Vals <- {}, data <- 0, phase <- 0, at <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: the data set accepted last and the one trained on last *)
None == [x |-> <<>>, y |-> <<>>]
Start(cfg) == [set |-> None, fit |-> None]
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op \in {"setdata", "updatey"} THEN
         [st |-> [s EXCEPT !.set = [x |-> IF e.op = "setdata" THEN e.x ELSE s.set.x, y |-> e.y]], bad |-> Clause(e.res = "ok", "refused-data")]
    ELSE IF e.op = "train" THEN [st |-> [s EXCEPT !.fit = s.set], bad |-> Clause(e.res = "ok", "train-failed")]
    ELSE IF e.op = "ask" THEN      \* rows for training points number e.ids
         [st |-> s, bad |-> Clause(e.res = "ok" /\ Len(e.rows) = Len(e.ids), "answer")
              \cup Clause(\A i \in 1..Len(e.rows) : I!Unique(s.fit, e.ids[i]) => I!Reproduced(s.fit, e.ids[i], e.rows[i], cfg.tol), "training-value-not-reproduced")
              \cup Clause(cfg.convex => \A i \in 1..Len(e.rows) : I!Between(s.fit, e.rows[i], 2), "outside-training-range")]
    ELSE [st |-> s, bad |-> Clause(e.res = "ok" /\ AllNumMat(e.rows), "answer")
              \cup Clause(cfg.convex => \A i \in 1..Len(e.rows) : I!Between(s.fit, e.rows[i], 2), "outside-training-range")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
