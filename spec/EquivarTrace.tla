---------------------------- MODULE EquivarTrace ----------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Equivar WITH Coords <- {}, Moves <- 0, X <- 0, Y <- 0, q <- 0, A <- 0, B <- 0, n0 <- 0, c <- 0, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* state: the observations of the last model trained; a silent event applies one map of several made at once *)
Start(cfg) == [v |-> <<>>, w |-> <<>>, d |-> <<>>]
Obs(e) == [v |-> e.v, w |-> e.w, d |-> e.d]
Apply(cfg, s, e) ==
    CASE e.op = "Crash" -> [st |-> s, bad |-> {"crash"}]
      [] e.res # "ok" -> [st |-> s, bad |-> {"fails-after-" \o e.g.what}]
      [] e.op = "first" -> [st |-> Obs(e), bad |-> Clause(AllNumMat(e.v), "not-finite")]
      [] e.op = "silent" -> [st |-> P!Act(s, e.g), bad |-> {}]
      [] OTHER -> LET x == P!Act(s, e.g) IN
           [st |-> Obs(e), bad |-> Clause(NearMat(x.v, e.v, cfg.tol), "values-" \o e.g.what)
              \cup Clause(NearMat(x.w, e.w, cfg.vtol), "variances-" \o e.g.what)
              \cup Clause(Len(x.d) = Len(e.d) /\ \A k \in 1..Len(x.d) : NearMat(x.d[k], e.d[k], cfg.dtol), "slopes-" \o e.g.what)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=============================================================================
