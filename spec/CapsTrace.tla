----------------------------- MODULE CapsTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Caps WITH NX <- 0, declared <- 0, usable <- 0, store <- 0, last <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: derivative directions set, the fit ("none", "fresh", "dstale": a derivative was set since, *)
(* "stale": data were set since; answers of a stale fit are not judged) *)
Start(cfg) == [set |-> {}, fit |-> "none"]
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op = "flags" THEN [st |-> s, bad |-> UNION {Clause(e.flags[f] = cfg.decl[f], "declares-" \o f) : f \in DOMAIN cfg.decl}]
    ELSE IF e.op = "setdata" THEN [st |-> [s EXCEPT !.fit = IF s.fit = "none" THEN "none" ELSE "stale"], bad |-> Clause(e.res = "ok", "setdata")]
    ELSE IF e.op = "train" THEN [st |-> [s EXCEPT !.fit = IF e.res = "ok" THEN "fresh" ELSE @], bad |-> Clause(e.res = "ok", "train")]
    ELSE LET need == P!Needs(e.op)
             decl == cfg.decl[need]
             open == cfg.usable[need]
             out == P!Outcome(decl, open, e.op, e.k, cfg.nx, e.k \in s.set)
             \* an untrained model has nothing to predict with: any refusal will do
             judged == e.op \in {"settd", "updtd"} \/ s.fit = "fresh" \/ (s.fit = "dstale" /\ e.op # "od") \/ ~decl
         IN [st |-> IF e.op = "settd" /\ e.res = "ok" THEN [set |-> s.set \cup {e.k}, fit |-> IF s.fit = "fresh" THEN "dstale" ELSE s.fit]
                    ELSE IF e.op = "updtd" /\ e.res = "ok" /\ s.fit = "fresh" THEN [s EXCEPT !.fit = "dstale"] ELSE s,
             bad |-> Clause(judged => e.res \in out, "outcome-" \o e.op \o "-" \o e.res)
                \cup Clause(s.fit = "none" /\ e.op \notin {"settd", "updtd"} => e.res # "ok", "answered-untrained-" \o e.op)
                \cup Clause(e.res = "ok" /\ e.op \in {"der", "var"} => e.shape = <<e.n, cfg.ny>>, "shape-" \o e.op)
                \cup Clause(e.res = "ok" => e.finite, "not-finite-" \o e.op)
                \cup Clause(e.res # "ok" => e.same, "refused-but-changed-" \o e.op)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
