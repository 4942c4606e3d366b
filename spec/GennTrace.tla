----------------------------- MODULE GennTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Genn WITH OptNames <- {}, OptVals <- {}, DataSets <- {}, MaxOps <- 0, opt <- 0, data <- 0, fit <- 0, last <- 0, k <- 0
N == INSTANCE Nnet WITH Grads <- {}, Sizes <- {}, MaxT <- 0, t <- 0, num <- 0, den <- 0, gs <- <<>>, tries <- 0, cost <- 0, batches <- <<>>
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == [opt |-> cfg.opt, data |-> [set |-> 0, out |-> 0, der |-> 0, m |-> 0, nx |-> 0, ny |-> 0], fit |-> [set |-> 0], nx |-> 0, ny |-> 0, now |-> <<>>, seen |-> <<>>]
Shape(m, r, c) == HasShape(m, r, c) /\ AllNumMat(m)
(* what every training answers at the probe points                          *)
Judge(s, L, e) ==
    Clause(e.kept, "training-changes-data-or-options")
    \cup Clause(Shape(e.vals, e.n, s.data.ny), "values-not-finite-or-misshapen")
    \cup Clause(Len(e.ders) = s.data.nx /\ \A k \in 1..Len(e.ders) : Shape(e.ders[k], e.n, s.data.ny), "derivatives-not-finite-or-misshapen")
    \cup UNION {LET b == s.seen[i] IN
                  IF b.les = L THEN Clause(NearMat(b.vals, e.vals, 2) /\ \A k \in 1..Len(e.ders) : NearMat(b.ders[k], e.ders[k], 20), "same-lesson-different-network-" \o e.who)
                  ELSE IF b.les.set = L.set /\ P!Apart(b.les, L) THEN Clause(~NearMat(b.vals, e.vals, 0),
                                (IF b.les.der # L.der \/ b.les.gamma # L.gamma THEN "derivatives-ignored" ELSE "option-or-data-ignored"))
                  ELSE {} : i \in 1..Len(s.seen)}
    \cup Clause(e.cost.ok => Abs(e.cost.twom - N!Cost2m(e.cost.sy, e.cost.sw, e.cost.sd, s.opt.lambd * 10000, L.gamma * 10000)) <= 60, "not-the-cost-asked-for")
    \cup Clause(e.hist.ok => e.hist.epochs = s.opt.num_epochs /\ \A i \in 1..Len(e.hist.batches) : e.hist.batches[i] = (s.data.m + L.batch - 1) \div L.batch, "epochs-or-batches")
    \cup Clause(e.hist.ok => e.hist.iters <= s.opt.num_iterations, "too-many-iterations")
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE CASE e.op = "data" -> [st |-> [s EXCEPT !.data = [set |-> e.set, out |-> e.out, der |-> e.der, m |-> e.m, nx |-> e.nx, ny |-> e.ny]], bad |-> {}]
      [] e.op = "opt" -> [st |-> [s EXCEPT !.opt[e.name] = e.val], bad |-> {}]
      [] e.op \in {"train", "fresh"} ->
            LET L == P!Lesson(s.opt, s.data, s.data.m) IN
            IF e.res # "ok" THEN [st |-> s, bad |-> {"training-failed"}]
            ELSE [st |-> [s EXCEPT !.seen = Append(s.seen, [les |-> L, vals |-> e.vals, ders |-> e.ders]),
                                   !.now = IF e.op = "train" THEN <<[vals |-> e.vals, ders |-> e.ders]>> ELSE s.now],
                  bad |-> Judge(s, L, e)]
      [] e.op = "predict" ->
            [st |-> s,
             bad |-> IF e.which = "outside" THEN Clause(e.res = "ok" /\ AllNumMat(e.vals), "prediction-outside-fails")
                     ELSE Clause(e.res = "ok", "prediction-fails") \cup Clause(e.kept, "prediction-changes-data-or-options")
                       \cup (IF e.res = "ok" /\ Len(s.now) = 1
                             THEN Clause(\A i \in 1..Len(e.rows) : NearSeq(e.vals[i], s.now[1].vals[e.rows[i]], 2), "prediction-depends-on-history")
                                  \cup Clause(\A i \in 1..Len(e.rows) : \A k \in 1..Len(e.ders) : NearSeq(e.ders[k][i], s.now[1].ders[k][e.rows[i]], 20), "derivative-depends-on-history")
                             ELSE {})]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
