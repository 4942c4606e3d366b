-------------------------- MODULE OptionsTrace --------------------------
EXTENDS Fx, Json, IOUtils
O == INSTANCE Options WITH Names <- {"a", "b", "c"}, MaxUpd <- 3, s <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad

Start(cfg) == O!Start0({"a", "b", "c"})
Projection(x, k) == [n \in {"a", "b", "c"} |-> x.o[k][n].val]

Apply(cfg, x, e) ==
    IF e.op = "Crash" THEN [st |-> x, bad |-> {"crash"}]
    ELSE LET r == O!Step(x, e)
             two == r.st.has2
         IN [st |-> r.st,
             bad |-> Clause((e.res = "ok") = (r.res = "ok"), e.op \o "-acceptance")
                \cup Clause(e.p1 = Projection(r.st, 1), e.op \o "-values")
                \cup Clause(~two \/ e.p2 = Projection(r.st, 2), e.op \o "-clone-values")
                \cup Clause(e.op # "get" \/ r.res # "ok" \/ e.out = r.out, "get-value")
                \cup Clause(e.unk, "undeclared-visible")]

R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
