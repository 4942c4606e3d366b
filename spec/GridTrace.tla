---------------------------- MODULE GridTrace ----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Grid WITH NX <- 0, MaxW <- 0, MaxN <- 0, w <- 0, n <- 0, num <- 0, last <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE LET lv == P!Levels(e.w, e.n)
             form == IF e.given = "none" THEN "" ELSE "-weights"
         IN [st |-> s,
             bad |-> IF e.res # "ok" THEN {"failed" \o form} ELSE
                 Clause(Len(e.m) = (IF e.clip THEN P!Size(CHOOSE v \in lv : \A u \in lv : P!Size(v) <= P!Size(u)) ELSE e.n) \/ Cardinality(lv) > 1, "number-of-points")
            \cup Clause(\E v \in lv : P!IsSample(e.m, v, e.n, e.clip), "not-the-grid" \o form)
            \cup Clause(e.wsame, "weights-changed") \cup Clause(e.limsame, "limits-changed") \cup Clause(e.again, "second-call-differs")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
