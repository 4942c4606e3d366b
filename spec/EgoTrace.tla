----------------------------- MODULE EgoTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Ego WITH Points <- {}, NDoe <- 0, NIter <- 0, NPar <- 0, Values <- {}, f <- 0, data <- 0, prop <- 0, iter <- 0
M == INSTANCE MixInt WITH NV <- 0, MaxLev <- 0, Vals <- {}, types <- 0, u <- 0, y <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* xs, ys: the data so far (unfolded points); the last prop of them virtual; open: proposals *)
(* of this iteration including the one being optimised *)
Start(cfg) == [xs |-> <<>>, ys |-> <<>>, prop |-> 0, iter |-> 0, begun |-> FALSE]
Tol == 30
FoldAll(cfg, xs) == [i \in 1..Len(xs) |-> M!Fold(cfg.types, xs[i])]
NearRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], 5)
Prefix(s, k) == SubSeq(s, 1, k)
Judge(cfg, which, set) == IF cfg.part = which THEN set ELSE {}
NewIter(s) == [s EXCEPT !.iter = @ + 1, !.prop = 0]

Apply(cfg, s, e) ==
  CASE e.op = "Crash" -> [st |-> s, bad |-> {"crash"}]
    [] e.op = "given" -> \* the initial design and its values, given by the caller
         [st |-> [s EXCEPT !.xs = e.x, !.ys = e.y, !.begun = TRUE], bad |-> {}]
    [] e.op = "eval" /\ ~s.begun ->
         \* the initial design is evaluated: as many points as asked for, or those given
         [st |-> [s EXCEPT !.xs = [i \in 1..Len(e.x) |-> M!Unfold(cfg.types, e.x[i])], !.ys = e.y, !.begun = TRUE],
          bad |-> Judge(cfg, "C16",
               Clause(Len(e.x) = cfg.ndoe, "initial-design-size")
          \cup Clause(\A i \in 1..Len(e.x) : M!AdmissibleF(cfg.types, cfg.lim, e.x[i]), "inadmissible-evaluation-initial")
          \cup Clause(cfg.given => NearRows(e.x, cfg.xdoe), "initial-design-changed"))]
    [] e.op = "train" ->
         LET base == Len(s.ys)
             extra == Len(e.x) - base
             \* a virtual value was given to the last proposed point
             ok == extra = (IF s.prop > 0 THEN 1 ELSE 0)
             grown == [s EXCEPT !.xs = IF ok THEN e.x ELSE @, !.ys = IF ok THEN e.y ELSE @]
             s2 == IF e.fail THEN (IF s.prop = 0 THEN NewIter(s) ELSE [grown EXCEPT !.prop = -@]) ELSE [grown EXCEPT !.prop = @ + 1]
         IN [st |-> s2,
             bad |-> Judge(cfg, "C16", Clause(ok, "training-set-size")
                  \cup Clause(s.prop >= 0 /\ s.prop < cfg.par, "too-many-proposals")
                  \cup Clause(ok => NearRows(Prefix(e.x, base), s.xs) /\ NearSeq(Prefix(e.y, base), s.ys, 5), "training-data-changed"))
                  \cup Judge(cfg, "C17", Clause(ok /\ extra = 1 => P!Virtual(cfg.qei, e.y[base + 1], e.mean, e.sd, e.ymin, Tol), "virtual-value-" \o cfg.qei))]
    [] e.op = "eval" ->
         LET npend == Abs(s.prop)
             base == IF s.prop < 0 THEN Len(s.ys) - npend ELSE Len(s.ys) - (npend - 1)
             \* a broken iteration has all pending points in the data, a complete one all but the last
             ok == npend > 0 /\ Len(e.x) = npend
             full == s.prop = cfg.par \/ s.prop < 0
             pend == IF ok THEN SubSeq(s.xs, base + 1, Len(s.xs)) ELSE <<>>
             new == IF ok THEN [i \in 1..npend |-> IF i <= Len(pend) THEN pend[i] ELSE M!Unfold(cfg.types, e.x[i])] ELSE <<>>
         IN [st |-> NewIter([s EXCEPT !.xs = IF ok THEN Prefix(@, base) \o new ELSE @, !.ys = IF ok THEN Prefix(@, base) \o e.y ELSE @]),
             bad |-> Judge(cfg, "C16", Clause(ok, "number-of-evaluations")
                  \cup Clause(full, "evaluated-before-all-proposals")
                  \cup Clause(\A i \in 1..Len(e.x) : M!AdmissibleF(cfg.types, cfg.lim, e.x[i]), "inadmissible-evaluation")
                  \cup Clause(ok => \A i \in 1..Len(pend) : NearSeq(e.x[i], M!Fold(cfg.types, pend[i]), 5), "evaluated-other-points-than-proposed"))]
    [] e.op = "end" ->
         LET n == Len(s.ys)
         IN [st |-> s,
             bad |-> Judge(cfg, "C16",
                  Clause(s.iter = cfg.iter, "number-of-iterations")
             \cup Clause(NearRows(e.xdata, s.xs), "x-data") \cup Clause(NearSeq(e.ydata, s.ys, 5), "y-data")
             \cup Clause(\A i \in 1..Len(e.xdata) : M!AdmissibleU(cfg.types, cfg.lim, e.xdata[i]), "x-data-inadmissible")
             \cup Clause(e.ind \in 1..n /\ Len(e.ydata) = n => (Near(e.yopt, e.ydata[e.ind], 2) /\ \A k \in 1..n : e.ydata[e.ind] <= e.ydata[k] + 2), "optimum-not-the-smallest")
             \cup Clause(e.ind \in 1..Len(e.xdata) => NearSeq(e.xopt, M!Fold(cfg.types, e.xdata[e.ind]), 5), "optimum-point")
             \cup Clause(e.same, "caller-data-or-options-changed"))]
    [] e.op = "acq" ->
         LET gap == e.fmin - e.mean
             closed == Mul(gap, e.cdf) + Mul(e.sd, e.pdf)
         IN [st |-> s,
             bad |-> Judge(cfg, "C17",
                  Clause(IsNum(e.ei) /\ e.ei >= -1, "ei-negative-or-not-finite")
             \cup Clause(e.sd > 20 => Near(e.ei, closed, Tol), "ei-not-closed-form")
             \cup Clause(e.sd = 0 /\ gap <= 0 => Near(e.ei, 0, 2), "ei-without-variance")
             \cup Clause(IsNum(e.ei) => e.ei <= Max2(gap, 0) + e.sd + Tol, "ei-too-large")
             \cup Clause(Near(e.sbo, e.mean, 2), "sbo-not-the-mean")
             \cup Clause(Near(e.lcb, e.mean - 3 * e.sd, Tol), "lcb-not-mean-minus-3-sd")
             \cup Clause(IsNum(e.tun) /\ e.tun >= 0 /\ e.tun <= e.ei + 2, "tunneling-not-a-penalty"))]
    [] e.op = "batch" -> [st |-> s, bad |-> Judge(cfg, "C17", Clause(e.distinct => NearSeq(e.many, e.single, 30), "criterion-depends-on-batch-" \o e.what))]
    [] e.op = "choice" -> \* criterion (smaller is better) at the proposed point and at reference points of the box
         [st |-> s, bad |-> Judge(cfg, "C17", Clause(\A k \in 1..Len(e.found) : e.got <= e.found[k] + 50, "a-better-local-optimum-was-found-" \o e.crit)
              \cup Clause(4 * Cardinality({k \in 1..Len(e.others) : e.others[k] >= e.got - 50}) >= Len(e.others), "proposal-not-optimised-" \o e.crit))]
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
