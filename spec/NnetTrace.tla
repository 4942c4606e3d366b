----------------------------- MODULE NnetTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Nnet WITH Grads <- {}, Sizes <- {}, MaxT <- 0, t <- 0, num <- 0, den <- 0, gs <- <<>>, tries <- 0, cost <- 0, batches <- <<>>
D == INSTANCE Derivs WITH CoefMax <- 0, Steps <- {}, c <- 0, x <- 0, h <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* the optimiser's state: moments, powers of the decay rates, the design    *)
Start(cfg) == [V |-> <<>>, S |-> <<>>, p1 |-> One, p2 |-> One, n |-> 0, stag |-> 0]

Opt(cfg, s, e) ==
    CASE e.op = "begin" ->
            [st |-> [s EXCEPT !.V = [i \in 1..e.dim |-> 0], !.S = [i \in 1..e.dim |-> 0], !.p1 = One, !.p2 = One, !.n = 0, !.stag = 0],
             bad |-> Clause(e.startkept, "does-not-start-at-the-current-design")]
      [] e.op = "step" ->
           LET V == P!NewV(s.V, e.g, cfg.b1)  S == P!NewS(s.S, e.g, cfg.b2)
               p1 == Mul(s.p1, cfg.b1)  p2 == Mul(s.p2, cfg.b2)
               N == Len(e.g)
               adam == cfg.alg = "Adam"
               (* the certificate is checked, then used *)
               certs == ~adam \/ \A i \in 1..N : /\ P!CorrOk(e.vh[i], V[i], cfg.b1, p1, 400)
                                                 /\ P!CorrOk(e.sh[i], S[i], cfg.b2, p2, 400)
                                                 /\ P!RootOk(e.root[i], e.sh[i], 5)
                                                 /\ (e.sh[i] >= 2000 => Abs(Mul(e.quot[i], e.root[i]) - e.vh[i]) <= 30)
               judged == {i \in 1..N : ~adam \/ e.sh[i] >= 2000}
               dir == IF adam THEN e.quot ELSE e.g
               m == IF judged = {} THEN 0 ELSE MaxSeq([i \in 1..N |-> IF i \in judged THEN Abs(dir[i]) ELSE 0])
               slack == IF adam THEN 40000 ELSE 3000
           IN [st |-> [s EXCEPT !.V = V, !.S = S, !.p1 = p1, !.p2 = p2, !.n = s.n + 1],
               bad |-> Clause(certs, "not-the-published-moments-" \o cfg.alg)
                  \cup Clause(e.dec \in {-1, 0}, "cost-increases")
                  \cup Clause(e.dec = -1 \/ ~e.moved, "accepted-without-a-decrease")
                  \cup Clause(e.moved /\ ~e.tiny => \A i \in judged : Abs(Mul(e.unit[i], m) - dir[i]) <= slack, "not-along-the-direction-" \o cfg.alg)
                  \cup Clause(e.moved /\ ~e.tiny => e.len <= m + slack, "step-too-long-" \o cfg.alg)
                  \cup Clause(e.clear => /\ e.ex <= 1 /\ P!PowerOfTwo(e.man, 60) /\ (e.ex = 1 => e.man < 600000), "not-a-halved-step-" \o cfg.alg)
                  \cup Clause(e.moved \/ adam \/ e.flat, "stalled-" \o cfg.alg)]
      [] e.op = "end" ->
            [st |-> s, bad |-> Clause(e.kept, "initial-guess-changed")
                          \cup Clause(e.last, "optimum-is-not-the-last-design")
                          \cup Clause(e.costs, "cost-history-is-not-the-cost-of-the-designs")
                          \cup Clause(e.count = s.n /\ (s.n = e.iters \/ s.n > 100), "wrong-number-of-iterations")]

Grad(cfg, s, e) ==
    CASE e.op = "cost" ->
            [st |-> s, bad |-> Clause(Abs(e.twom - P!Cost2m(e.sy, e.sw, e.sd, cfg.lambd, cfg.gamma)) <= 30, "cost-formula")]
      [] e.op = "grad" -> [st |-> s, bad |-> Clause(e.shape, "gradient-shape") \cup Clause(e.kept, "arguments-changed")]
      [] e.op = "entry" ->
            [st |-> s, bad |-> Clause(D!Clipped(e.d, e.q) \/ D!SlopeOk(e.d, e.q, 40), "gradient-" \o e.what)]
      [] e.op = "net" ->
            [st |-> s, bad |-> Clause(D!Clipped(e.d, e.q) \/ D!SlopeOk(e.d, e.q, 40), "predicted-derivative")]

Batch(cfg, s, e) ==
    [st |-> s, bad |-> Clause(P!Partition(cfg.m, cfg.size, e.x), "not-a-partition")
                  \cup Clause(e.y = e.x, "outputs-mixed-up")
                  \cup Clause(e.j = (IF cfg.jac THEN e.x ELSE [b \in 1..Len(e.x) |-> <<>>]), "derivatives-mixed-up")
                  \cup Clause(e.exact, "values-changed")
                  \cup Clause(e.kept, "arguments-changed")
                  \cup Clause(~cfg.seeded \/ e.repeat, "seed-does-not-repeat")]

(* normalised data have mean 0 and deviation 1 (constant rows: only centred) *)
NormRow(r) == /\ AllNum(r) /\ Abs(SumSeq(r)) <= 5 * Len(r)
              /\ LET ss == SumSeq([i \in 1..Len(r) |-> Mul(r[i], r[i])])
                 IN  Abs(ss - Len(r) * One) <= 50 * Len(r) \/ \A i \in 1..Len(r) : Abs(r[i]) <= 5
Model(cfg, s, e) ==
    CASE e.op = "train" -> [st |-> s, bad |-> Clause(e.res = "ok", "training-failed") \cup Clause(e.kept, "training-data-changed")]
      [] e.op = "normal" -> [st |-> s, bad |-> Clause(\A i \in 1..Len(e.rows) : NormRow(e.rows[i]), "not-normalised")]
      [] e.op = "restore" -> [st |-> s, bad |-> Clause(NearMat(e.got, e.want, 5), "training-data-not-restored-" \o e.what)]
      [] e.op = "evaluate" -> [st |-> s, bad |-> Clause(NearMat(e.got, e.want, 5), "prediction-not-denormalised-" \o e.what)]
      [] e.op = "slope" -> [st |-> s, bad |-> Clause(D!Clipped(e.d, e.q) \/ D!SlopeOk(e.d, e.q, 60), "predicted-derivative-" \o cfg.data)]
      [] e.op = "history" -> [st |-> s, bad |-> Clause(e.epochs = cfg.epochs /\ \A i \in 1..Len(e.batches) : e.batches[i] = e.expect, "epochs-or-batches-missing")
                                           \cup Clause(e.descent, "cost-increases-in-training")]

Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash-" \o cfg.kind}]
    ELSE CASE cfg.kind = "opt" -> Opt(cfg, s, e)
           [] cfg.kind = "grad" -> Grad(cfg, s, e)
           [] cfg.kind = "batch" -> Batch(cfg, s, e)
           [] cfg.kind = "model" -> Model(cfg, s, e)
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
