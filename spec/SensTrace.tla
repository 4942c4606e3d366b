----------------------------- MODULE SensTrace -----------------------------
EXTENDS Fx, Json, IOUtils
S == INSTANCE Sens WITH Line <- {}, Vals <- {}, data <- 0, at <- 0, i <- 0, moved <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    [st |-> s,
     bad |-> IF e.op = "Crash" THEN {"crash"}
             ELSE IF e.res # "ok" THEN {"refused-" \o e.op}
             ELSE IF e.op = "sens" THEN
                 Clause(e.keys = cfg.keys, "wrong-keys")
                 \* one weight per prediction point and output, at least one for the perturbed output
                 \cup Clause(Len(e.d) = Len(e.up) /\ \A p \in 1..Len(e.d) : (cfg.curved /\ Abs(e.up[p] + e.dn[p]) > 5 * cfg.tol) \/ S!WeightOk(e.d[p], e.up[p], e.dn[p], cfg.tol), "not-the-sensitivity" \o e.key)
                 \cup Clause(\A p \in 1..Len(e.otherup) : S!Untouched(e.otherup[p], e.otherdn[p], 5), "other-output-moved")
             ELSE Clause(Len(e.sum) = Len(e.pred) /\ \A p \in 1..Len(e.sum) : NearSeq(e.sum[p], e.pred[p], cfg.tol), "does-not-recombine")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
