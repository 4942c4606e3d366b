----------------------------- MODULE LhsTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Lhs WITH N <- 0, NX <- 0, d <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* known results; the draws made so far from the global stream and from each generator object *)
Start(cfg) == [known |-> [p \in {} |-> ""], glob |-> <<"seed", 0>>, objs |-> [s \in 1..4 |-> <<>>], seen |-> {}]
(* a seed and a generator object just made from this seed are the same source *)
Source(e, hist) == IF e.src \in {"int", "obj"} /\ hist = <<>> THEN <<"seed", e.seed>> ELSE <<e.src, e.seed>>
Continuous(e) == e.crit \notin {"center", "c", "cm", "centermaximin"} /\ e.src # "glob"
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op = "seedglobal" THEN [st |-> [s EXCEPT !.glob = <<"seed", e.seed>>], bad |-> {}]
    ELSE IF e.res # "ok" THEN [st |-> s, bad |-> {"failed-" \o e.crit}]
    ELSE LET hist == CASE e.src = "obj" -> s.objs[e.seed] [] e.src = "glob" -> s.glob [] OTHER -> <<>>
             call == <<e.crit, e.n, e.nx>>
             src == Source(e, hist)
             key == P!Key(e.crit, e.n, e.nx, src, hist)
             who == IF e.src = "none" THEN <<"none", Cardinality(s.seen)>> ELSE src \o hist
             judged == e.src # "none"
         IN [st |-> [known |-> IF ~judged \/ key \in DOMAIN s.known THEN s.known ELSE [k \in DOMAIN s.known \cup {key} |-> IF k = key THEN e.digest ELSE s.known[k]],
                     seen |-> IF Continuous(e) THEN s.seen \cup {[call |-> call, who |-> who, digest |-> e.digest]} ELSE s.seen,
                     glob |-> IF e.src = "glob" THEN Append(s.glob, call) ELSE s.glob,
                     objs |-> IF e.src = "obj" THEN [s.objs EXCEPT ![e.seed] = Append(@, call)] ELSE s.objs],
             bad |-> Clause(e.shape = <<e.n, e.nx>>, "shape")
                \cup Clause(e.shape = <<e.n, e.nx>> => P!InLimits(e.m, e.n), "outside-limits")
                \cup Clause(e.crit # "random" /\ e.shape = <<e.n, e.nx>> => P!Latin(e.m, e.n, e.nx), "not-latin-" \o e.crit)
                \cup Clause(e.crit \in {"center", "centermaximin", "c", "cm"} => P!Centred(e.m, 5), "not-centred-" \o e.crit)
                \cup Clause(judged /\ key \in DOMAIN s.known => s.known[key] = e.digest, "not-reproducible-" \o e.src)
                \cup Clause(e.src # "glob" => e.globsame, "global-generator-used")
                \cup Clause(e.src = "glob" => ~e.globsame, "global-generator-not-used")
                \cup Clause(Continuous(e) => ~\E x \in s.seen : x.call = call /\ x.who # who /\ x.digest = e.digest, "same-design-from-another-source-" \o e.src)
                \cup Clause(e.limsame, "limits-changed")
                \cup Clause(e.crit = "ese" => e.phip <= e.typical, "ese-not-optimised")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
