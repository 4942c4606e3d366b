--------------------------- MODULE LinSolveTrace ---------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE LinSolve WITH Entries <- {}, MaxOps <- 0, A <- 0, det <- 0, fact <- 0, out <- 0, rhs <- 0, k <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* the state: the matrix the solver was last set up with *)
Start(cfg) == [mat |-> <<>>]
Tol(s) == IF s \in {"dense-lu", "dense-chol", "lu", "lu-get"} THEN 200 ELSE 3000
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash-" \o cfg.solver}]
    ELSE IF e.res # "ok" THEN [st |-> s, bad |-> {"failed-" \o e.op \o "-" \o cfg.solver}]
    ELSE IF e.op = "sweep" THEN [st |-> s, bad |-> Clause(P!IsStep(e.kind, e.mat, e.wn, e.rhs, e.x0, e.x1, 300), "not-the-damped-iteration-" \o e.kind)]
    ELSE IF e.op = "setup" THEN [st |-> [mat |-> e.mat], bad |-> Clause(e.kept, "matrix-changed-" \o cfg.solver)]
    ELSE [st |-> s, bad |->
            UNION {Clause(P!Solves(s.mat, e.sols[j], e.rhs[j], Tol(cfg.solver)), "not-solved-" \o cfg.solver \o "-" \o e.form) : j \in 1..Len(e.rhs)}
       \cup UNION {Clause(NearSeq(e.sols[j], e.truth[j], Tol(cfg.solver) * 10), "wrong-solution-" \o cfg.solver \o "-" \o e.form) : j \in 1..Len(e.rhs)}
       \cup Clause(e.kept, "right-hand-side-changed-" \o cfg.solver)
       \cup Clause(e.matkept, "matrix-changed-" \o cfg.solver)
       \cup Clause(e.others, "other-columns-changed-" \o cfg.solver)
       \cup Clause(e.inplace, "not-in-place-" \o cfg.solver)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
