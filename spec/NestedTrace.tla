--------------------------- MODULE NestedTrace ---------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Nested WITH N0 <- 0, NX <- 0, Lev <- 0, big <- 0, small <- 0, todo <- 0, gone <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op = "invalid" THEN [st |-> s, bad |-> Clause(e.res # "ok", "invalid-number-of-levels-accepted")]
    ELSE IF e.res # "ok" THEN [st |-> s, bad |-> {"failed"}]
    ELSE LET sizes == Len(e.m) = e.lev /\ \A i \in 1..Len(e.m) : Len(e.m[i]) = P!SizeOf(i, e.lev, e.n) /\ \A r \in 1..Len(e.m[i]) : Len(e.m[i][r]) = e.nx
         IN [st |-> s,
             bad |-> Clause(sizes, "sizes")
                \cup Clause(e.limsame, "limits-changed")
                \cup (IF ~sizes THEN {} ELSE
                      Clause(\A i \in 1..e.lev : \A r \in 1..Len(e.m[i]) : \A j \in 1..e.nx : IsNum(e.m[i][r][j]) /\ -1 <= e.m[i][r][j] /\ e.m[i][r][j] <= One + 1, "outside-limits")
                 \cup Clause(\A i \in 1..(e.lev - 1) : P!IsNested(e.ids, i), "not-nested")
                 \cup Clause(\A i \in 1..e.lev : P!Distinct(e.ids[i]), "repeated-points")
                 \cup Clause(\A i \in 1..e.lev : P!OwnLatin(e.m[i], P!OwnRows(e.ids, i), Len(e.m[i]), e.nx), "not-latin"))]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
