---------------------------- MODULE Lifecycle ----------------------------
(* C03.  A surrogate object is options + training data + the model fitted  *)
(* last.  Training is a function of the current options and data only, so  *)
(* the fitted model is identified by the pair it was trained from; no      *)
(* operation but SetOpt changes an option.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK"}
KrgOpts == [corr |-> {"squar_exp", "abs_exp", "matern52", "matern32"}, poly |-> {"constant", "linear", "quadratic"},
            theta0 |-> {"a", "b", "arr", "full", "out"}, theta_bounds |-> {"a", "b"}, nugget |-> {"a", "b"},
            hyper_opt |-> {"Cobyla", "TNC"}, noise0 |-> {"zero", "a", "per"}, eval_noise |-> {"F", "T"}, use_het_noise |-> {"F", "T"},
            noise_bounds |-> {"a", "b"}]
PlsOpts == [poly |-> {"constant", "linear"}, theta0 |-> {"a", "b", "arr"}, theta_bounds |-> {"a", "b"}, nugget |-> {"a", "b"},
            n_comp |-> {"1", "2"}, corr |-> {"squar_exp", "abs_exp"}, noise0 |-> {"zero", "a"}, eval_noise |-> {"F", "T"}]
RmtOpts == [energy_weight |-> {"a", "b"}, regularization_weight |-> {"a", "b"}, min_energy |-> {"F", "T"}, approx_order |-> {"2", "4"},
            smoothness |-> {"a", "b", "list"}, extrapolate |-> {"F", "T"}, grad_weight |-> {"a", "b"}, nonlinear_maxiter |-> {"3", "6"},
            solver |-> {"lu", "krylov"}, line_search |-> {"backtracking", "quadratic"}]
MfkOpts == [rho_regr |-> {"constant", "linear"}, theta0 |-> {"a", "b", "arr"}, poly |-> {"constant", "linear"}, noise0 |-> {"zero", "a"},
            eval_noise |-> {"F", "T"}, nugget |-> {"a", "b"}, theta_bounds |-> {"a", "b"}, optim_var |-> {"F", "T"}]
None == [p \in {} |-> 0]
Opts(k) ==
    CASE k \in {"LS", "QP"} -> None
      [] k = "IDW" -> [p |-> {"2", "3", "2.5"}]
      [] k = "RBF" -> [d0 |-> {"a", "b", "list"}, poly_degree |-> {"-1", "0", "1"}, reg |-> {"a", "b"}]
      [] k = "RMTB" -> RmtOpts @@ [order |-> {"3", "4"}, num_ctrl_pts |-> {"6", "list"}]
      [] k = "RMTC" -> RmtOpts @@ [num_elements |-> {"2", "list"}]
      [] k = "KRG" -> KrgOpts
      [] k = "KPLS" -> PlsOpts
      [] k = "KPLSK" -> [p \in DOMAIN PlsOpts \ {"corr"} |-> PlsOpts[p]]
      [] k = "GEKPLS" -> PlsOpts @@ [extra_points |-> {"0", "1"}, delta_x |-> {"a", "b"}]
      [] k = "MFK" -> MfkOpts @@ [corr |-> {"squar_exp", "matern52"}]
      [] OTHER -> MfkOpts @@ [n_comp |-> {"1", "2"}]
Multi(k) == k \in {"LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK"}
WithDer(k) == k \in {"RMTB", "RMTC", "GEKPLS"}
DataSets == 1..5            \* different numbers of points, inputs and outputs (see harness)
Versions == 1..3            \* different training outputs on the same points

(* the state: data set and version, option values ("def": never set), and what the model was fitted from *)
Start0(k) == [data |-> [set |-> 0, ver |-> 0, der |-> 0], opt |-> [o \in DOMAIN Opts(k) |-> "def"], fit |-> "none"]
Step(s, e) ==
    CASE e.op = "setdata" -> [s EXCEPT !.data = [set |-> e.set, ver |-> e.ver, der |-> e.der]]
      [] e.op = "updatey" -> [s EXCEPT !.data.ver = e.ver]
      [] e.op = "setopt"  -> [s EXCEPT !.opt[e.o] = e.v]
      [] e.op = "train"   -> [s EXCEPT !.fit = ToString(<<s.data, s.opt>>)]
      [] OTHER            -> s      \* "predict"
VARIABLES kind, s, n
Init == kind \in Kinds /\ s = Start0(kind) /\ n = 0
Ops(k) == [op : {"setdata"}, set : {1, 2}, ver : {1}, der : {0}] \cup [op : {"updatey"}, ver : {2}]
          \cup [op : {"train"}] \cup [op : {"predict"}]
          \cup UNION {[op : {"setopt"}, o : {o}, v : Opts(k)[o]] : o \in DOMAIN Opts(k)}
CONSTANT MaxOps
Next == n < MaxOps /\ n' = n + 1 /\ kind' = kind
        /\ \E e \in Ops(kind) : (e.op \in {"train", "updatey"} => s.data.set # 0) /\ s' = Step(s, e)
Spec == Init /\ [][Next]_<<kind, s, n>>
(* training is idempotent and never touches options or data *)
TrainIdempotent == LET a == Step(s, [op |-> "train"]) IN Step(a, [op |-> "train"]) = a /\ a.opt = s.opt /\ a.data = s.data
(* the fitted model, hence every answer, changes by training only           *)
OnlyTrainingFits == [][s'.fit # s.fit => s'.data = s.data /\ s'.opt = s.opt]_<<kind, s, n>>
OnlySetOptChangesOptions == [][s'.opt # s.opt => s'.fit = s.fit /\ s'.data = s.data]_<<kind, s, n>>
=========================================================================
