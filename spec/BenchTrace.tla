----------------------------- MODULE BenchTrace -----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Bench WITH N <- 0, Coords <- {}, MaxDepth <- 0, dims <- <<>>, fixed <- <<>>, depth <- 0, keep <- <<>>
D == INSTANCE Derivs WITH CoefMax <- 0, Steps <- {}, c <- 0, x <- 0, h <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == 0
Tag(cfg, s) == s \o "-" \o cfg.name
Apply(cfg, s, e) ==
    [st |-> s, bad |->
      CASE e.op = "Crash" -> {Tag(cfg, "crash")}
        [] e.op = "values" -> Clause(e.res = "ok", Tag(cfg, "refused"))
              \cup (IF e.res # "ok" THEN {} ELSE
                    Clause(e.shape, Tag(cfg, "shape")) \cup Clause(e.kept, Tag(cfg, "points-changed"))
               \cup Clause(NearSeq(e.vals, e.want, 20), Tag(cfg, "not-the-value"))
               \cup Clause(e.real, Tag(cfg, "not-real")))
        [] e.op = "exact" ->      \* integer points: the specification's own formula
              Clause(e.val = (IF cfg.name = "sphere" THEN P!Sphere(e.x) ELSE P!Rosen(e.x)), Tag(cfg, "not-the-exact-value"))
              \cup Clause(\A k \in 1..Len(e.x) : e.ders[k] = (IF cfg.name = "sphere" THEN P!DSphere(e.x, k) ELSE P!DRosen(e.x, k)), Tag(cfg, "not-the-exact-derivative"))
        [] e.op = "product" ->    \* tensor products: one factor per variable
              Clause(Near(e.val, P!ProdSeq(e.factors), 20 + 12 * Len(e.factors) * (1 + Abs(e.val) \div One)), Tag(cfg, "not-the-product"))
        [] e.op = "point" ->
              IF e.res # "ok" THEN {Tag(cfg, "refused-derivative")}
              ELSE Clause(Len(e.d) = 1 /\ Len(e.q) = 1, Tag(cfg, "shape"))
                   \cup Clause(\A j \in 1..Len(e.d) : IsNum(e.d[j]) /\ (D!Clipped(e.d[j], e.q[j]) \/ D!SlopeOk(e.d[j], e.q[j], e.tol)), Tag(cfg, "not-the-derivative"))
        [] e.op = "rows" -> Clause(e.same, Tag(cfg, "rows-depend-on-each-other")) \cup Clause(e.kept, Tag(cfg, "points-changed"))
        [] e.op = "reject" -> Clause(e.res # "ok", Tag(cfg, "accepted-" \o e.what))
        [] e.op = "limits" -> Clause(NearMat(e.got, e.want, 0), Tag(cfg, "limits")) \cup Clause(e.ndim, Tag(cfg, "dimension"))
        [] e.op = "embed" ->
              LET pt == P!Embed(e.dims, [i \in 1..Len(e.lo) |-> P!AtFraction(e.lo[i], e.hi[i], e.w)], e.x)
              IN Clause(NearSeq(pt, e.full, 5), "machinery-embedding")
                 \cup Clause(Near(e.val, e.want, 20), Tag(cfg, "not-an-embedding-value"))
                 \cup Clause(NearSeq(e.ders, e.wantders, 20), Tag(cfg, "not-an-embedding-derivative"))
                 \cup Clause(e.kept, Tag(cfg, "points-changed"))
        [] OTHER -> {"machinery-unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
