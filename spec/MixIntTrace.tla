--------------------------- MODULE MixIntTrace ---------------------------
EXTENDS Fx, Json, IOUtils
M == INSTANCE MixInt WITH NV <- 0, MaxLev <- 0, Vals <- {}, types <- 0, u <- 0, y <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == [known |-> [p \in {} |-> <<>>]]
Judge(cfg, s, e) ==
  CASE e.op = "cast" -> Clause(Len(e.y) = Len(e.u) /\ \A i \in 1..Len(e.u) : M!CastOk(cfg.types, e.u[i], e.y[i]), "cast")
                        \cup Clause(\A i \in 1..Len(e.y) : M!AdmissibleU(cfg.types, cfg.lim, e.y[i]), "cast-not-admissible")
                        \cup Clause(e.again = e.y, "cast-not-idempotent") \cup Clause(e.same, "caller-array-changed")
    [] e.op = "fold" -> Clause(Len(e.x) = Len(e.u) /\ \A i \in 1..Len(e.u) : e.x[i] = M!Fold(cfg.types, e.u[i]), "fold")
                        \cup Clause(e.back = e.u, "unfold-of-fold") \cup Clause(e.same, "caller-array-changed")
    [] e.op = "unfold" -> Clause(Len(e.x) = Len(e.u) /\ \A i \in 1..Len(e.x) : e.u[i] = M!Unfold(cfg.types, e.x[i]), "unfold")
                        \cup Clause(e.back = e.x, "fold-of-unfold") \cup Clause(e.same, "caller-array-changed")
    [] e.op = "dim" -> Clause(e.dim = M!Dim(cfg.types), "unfolded-dimension")
                       \cup Clause(e.lims = M!Limits(cfg.types, cfg.lim), "unfolded-limits") \cup Clause(e.same, "caller-array-changed")
    [] e.op = "label" -> Clause(\A i \in 1..Len(e.idx) : e.got[i] = e.labels[e.idx[i] + 1], "labels")
    [] e.op = "mixed" -> Clause(Len(e.got) = Len(cfg.types) /\ \A i \in 1..Len(e.got) :
                             IF cfg.types[i].t = "E" THEN e.got[i] = cfg.labels[i][(e.x[i] \div One) + 1] ELSE e.got[i] = ToString(e.x[i]), "mixed-point")
    [] e.op = "badspec" -> Clause(e.res = "ValueError", "inconsistent-specification-accepted")
    [] e.op = "context" -> Clause(e.equal, "context-differs-" \o e.what)
    [] e.op = "doe" -> Clause(Len(e.x) = e.n, "number-of-points")
                       \cup Clause(\A i \in 1..Len(e.x) : IF e.folded THEN M!AdmissibleF(cfg.types, cfg.lim, e.x[i]) ELSE M!AdmissibleU(cfg.types, cfg.lim, e.x[i]), "inadmissible-sample")
                       \cup Clause(e.same, "caller-array-changed")
    [] OTHER -> {"unknown-event"}
(* a surrogate answers by the admissible point only: keys are cast points   *)
Apply(cfg, s, e) ==
    IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
    ELSE IF e.op # "predict" THEN [st |-> s, bad |-> Judge(cfg, s, e)]
    ELSE LET keyOk == \A i \in 1..Len(e.key) : M!CastOk(cfg.types, e.u[i], e.key[i])
             ks == {<<e.kind, e.key[i]>> : i \in 1..Len(e.key)}
             new == ks \ DOMAIN s.known
             K == [k \in DOMAIN s.known \cup ks |-> IF k \in DOMAIN s.known THEN s.known[k]
                     ELSE e.rows[CHOOSE i \in 1..Len(e.key) : <<e.kind, e.key[i]>> = k]]
         IN [st |-> [known |-> K],
             bad |-> Clause(keyOk, "cast")
                \cup Clause(Len(e.rows) = Len(e.key) /\ AllNumMat(e.rows), "rows-" \o e.kind)
                \cup Clause(Len(e.rows) = Len(e.key) => NearMat(e.rows, e.ref, cfg.tol), "not-the-wrapped-model-" \o e.kind)
                \cup Clause(Len(e.rows) = Len(e.key) => \A i \in 1..Len(e.key) : NearSeq(e.rows[i], K[<<e.kind, e.key[i]>>], cfg.tol), "same-cast-different-answer-" \o e.kind)
                \cup Clause(e.same, "caller-array-changed")]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
