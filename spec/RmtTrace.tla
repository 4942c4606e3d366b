------------------------------ MODULE RmtTrace ------------------------------
EXTENDS Fx, Json, IOUtils
M == INSTANCE Rmt WITH R <- 0, Deg <- 0, p <- 0, e <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Decreasing(s, tol) == \A i \in 1..(Len(s) - 1) : IsNum(s[i + 1]) /\ s[i + 1] <= s[i] + tol
Judge(cfg, e) ==
    CASE e.op = "poly" -> UNION {Clause(M!IsPoly(e.s[j], e.deg, e.tol), "not-polynomial-" \o cfg.kind) : j \in 1..Len(e.s)}
      [] e.op = "joint" -> UNION {Clause(IF cfg.kind = "RMTB" THEN M!JointMax(e.s[j], e.deg, e.tol) ELSE M!JointC1(e.s[j], e.tol), "rough-joint-" \o cfg.kind) : j \in 1..Len(e.s)}
      [] e.op = "optimal" -> UNION {Clause(M!Stationary(e.terms[j], 2000), "not-minimal-" \o cfg.kind \o (IF cfg.grad THEN "-gradient" ELSE "-values")) : j \in 1..Len(e.terms)}
      [] e.op = "ridge" -> UNION {Clause(M!Stationary(e.terms[j], 2000), "not-minimal-ridge") : j \in 1..Len(e.terms)}
      [] e.op = "edge" -> UNION {Clause(Near(e.q[j], e.d[j], 5000), "not-a-polynomial-at-the-edge-" \o cfg.kind) : j \in 1..Len(e.q)}
      [] e.op = "refuse" -> Clause(e.out # "ok", "data-outside-the-domain-accepted-" \o cfg.kind)
      [] e.op = "outside" -> UNION {Clause(M!Outside(e.v[j], e.fb[j], e.gb[j], e.dx, cfg.extrap, 10), "outside-" \o cfg.kind) : j \in 1..Len(e.v)}
                        \cup UNION {UNION {Clause(Near(e.d[j][k], IF cfg.extrap THEN e.dg[j][k] ELSE 0, 10), "outside-derivative-" \o cfg.kind) : k \in {i \in 1..Len(e.dx) : e.dx[i] # 0}} : j \in 1..Len(e.v)}
      [] e.op = "constant" -> UNION {Clause(NearSeq(e.v[j], [i \in 1..Len(e.v[j]) |-> e.c[j]], 50), "constant-" \o cfg.kind) : j \in 1..Len(e.v)}
      [] e.op = "fit" -> UNION {Clause(AllNum(e.misfit[j]) /\ Decreasing(e.misfit[j], 5), "fit-not-improving-" \o cfg.kind) : j \in 1..Len(e.misfit)}
                    \cup Clause(e.exact => \A j \in 1..Len(e.last) : AllNum(e.last[j]) /\ \A i \in 1..Len(e.last[j]) : Abs(e.last[j][i]) <= 2000, "fit-not-exact-" \o cfg.kind)
      [] OTHER -> {"unknown-event"}
Apply(cfg, s, e) == [st |-> s, bad |-> IF e.op = "Crash" THEN {"crash-" \o cfg.kind} ELSE IF e.res # "ok" THEN {"failed-" \o e.op \o "-" \o cfg.kind} ELSE Judge(cfg, e)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
