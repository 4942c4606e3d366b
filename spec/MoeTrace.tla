----------------------------- MODULE MoeTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Moe WITH Kinds <- {}, NC <- 0, Errs <- {}, opts <- 0, err <- 0, chosen <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
(* e.slack, e.vslack: 40 units plus the rounding of the experts themselves (batch against row) *)
Judge(s, e) ==
  CASE e.op = "point" ->       \* one prediction point
         LET hard == P!MostProbable(e.own, 20)
         IN Clause(P!IsDistribution(e.own, 10), "harness-probabilities")
       \cup Clause(e.probs # <<>> => P!IsDistribution(e.probs, 10), "probabilities-not-a-distribution")
       \cup Clause(e.probs # <<>> => NearSeq(e.probs, e.own, 20), "probabilities")
       \cup Clause(e.smooth => Near(e.y, P!Smooth(e.own, e.values), e.slack), "smooth-value")
       \cup Clause(~e.smooth => \E j \in hard : Near(e.y, e.values[j], e.slack), "hard-value")
       \cup Clause(e.hasvar /\ e.smooth => Near(e.v, P!SmoothVar(e.own, e.vars), e.vslack), "smooth-variance")
       \cup Clause(e.hasvar /\ ~e.smooth => \E j \in hard : Near(e.v, e.vars[j], e.vslack), "hard-variance")
       \cup Clause(Near(e.y, e.alone, e.slack), "row-depends-on-batch")
    [] e.op = "enabled" -> Clause(SetOf(e.got) = P!Enabled(P!AllKinds, e.der, e.var, SetOf(e.allow), SetOf(e.deny)) \/ (e.got = <<"ValueError">> /\ P!Enabled(P!AllKinds, e.der, e.var, SetOf(e.allow), SetOf(e.deny)) = {}), "enabled-experts")
                     \cup Clause(Len(e.got) = Cardinality(SetOf(e.got)), "enabled-twice")
    [] e.op = "reject" -> Clause(e.res = e.want, "accepted-" \o e.what)
    [] e.op = "cluster" ->     \* validation errors of the enabled experts and the kind chosen
         Clause(e.kind \in SetOf(e.enabled), "expert-not-enabled")
    \cup Clause(e.kind \in SetOf(e.enabled) => \A i \in 1..Len(e.enabled) : e.errs[e.enabled[i]] >= e.errs[e.kind] - 5, "expert-not-the-best")
    \cup Clause(NearSeq(e.got, e.fresh, 300), "expert-not-trained-on-its-cluster")
    [] e.op = "factor" ->    \* one when it is not searched; otherwise the best of the search
         IF ~e.wanted \/ (\A k \in 1..Len(e.errs) : e.errs[k] = 0) THEN Clause(~e.wanted => e.factor = One, "factor-without-search")
         ELSE Clause(\E k \in 1..Len(e.grid) : Near(e.factor, e.grid[k], 2), "factor-outside-the-search")
              \cup Clause(\A k \in 1..Len(e.errs) : e.errs[k] >= e.errs[e.i] - 5, "factor-not-the-best")
    [] e.op = "equal" -> Clause(e.ok, e.what)
    [] OTHER -> {"unknown-event"}
Apply(cfg, s, e) == [st |-> s, bad |-> IF e.op = "Crash" THEN {"crash"} ELSE Judge(s, e)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
