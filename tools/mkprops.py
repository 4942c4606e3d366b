"""Writes /verif/properties.jsonl (one entry per property; edit here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
S = "smt/surrogate_models/"; A = "smt/applications/"; U = "smt/utils/"; G = "smt/sampling_methods/"; B = "smt/problems/"

p("C01", "Options hold only declared names and the last accepted value",
  "An options dictionary holds exactly the declared names, each with its declared default or the last value accepted for it. Setting or updating an undeclared name, or a value that is neither one of the declared allowed values nor an instance of a declared type, is rejected and leaves every stored value as it was before that assignment. A clone starts with the same names, values and rules and from then on evolves independently of the original.",
  ["histories", "inputs"], "every history of declare, set, get, update and clone calls with accepted and rejected arguments",
  "Tests construct models with valid options; no test sets an invalid value after a valid one, updates with mixed valid/invalid keys or mutates a clone.",
  [U+"options_dictionary.py"], [("OptionsDictionary._assert_valid", U+"options_dictionary.py"), ("OptionsDictionary.update/_clone", U+"options_dictionary.py")],
  [("_dict", "current values", U+"options_dictionary.py"), ("_declared_entries", "rules per option", U+"options_dictionary.py")],
  ["options[name]", "options[name] = v", "options.update", "options._clone()"])

p("C02", "A model holds exactly the last training data accepted, as private copies",
  "After any history of setting and updating training values and derivatives, for the unnamed and any named data groups, a surrogate's training data are, for each group and each output or derivative, the last array accepted for it. A rejected call (inconsistent row counts or shapes, updating data never set, a derivative index out of range, derivatives on a model without support) raises an error and changes nothing. Data are copied: writing afterwards into arrays the caller passed in changes neither the stored data nor later training.",
  ["histories", "inputs"], "every sequence of set/update calls over groups, outputs and derivative directions, including rejected ones, and caller mutation between calls",
  "Tests set data once, in a valid shape, and train; update_* and rejected calls are exercised almost nowhere.",
  [S+"surrogate_model.py", U+"checks.py"], [("set/update_training_values/derivatives", S+"surrogate_model.py"), ("check_2d_array, check_support", U+"checks.py")],
  [("training_points[name][kx]", "stored [x, y] pairs", S+"surrogate_model.py")], ["sm.training_points", "sm.predict_values after train"])

p("C03", "Training depends only on the current options and training data",
  "For every deterministic surrogate (LS, QP, IDW, RBF, RMTB, RMTC, KRG, KPLS, KPLSK, GEKPLS, MFK, MFKPLS, MFKPLSK), whatever sequence of set-data, set-option, train and predict calls came before, training yields the model that a fresh object given the current options and training data would yield: all its predictions are the same. Until it is trained again a model answers as it was trained, whatever training data it is given since. Training and predicting never change any option value the caller can read.",
  ["histories", "configurations"], "every history of data changes (sizes, dimensions, number of outputs), option changes, trainings and predictions on one object, for each model class and option set",
  "Every test trains each object once; nothing retrains an object with other data, fewer/more dimensions or changed options and compares with a fresh one.",
  [S+f for f in ("surrogate_model.py","krg_based.py","kpls.py","kplsk.py","gekpls.py","rbf.py","idw.py","ls.py","qp.py","rmts.py","rmtb.py","rmtc.py")]+[A+"mfk.py",A+"mfkpls.py",A+"mfkplsk.py"],
  [("train/_train", S+"surrogate_model.py"), ("_check_param/_new_train", S+"krg_based.py")],
  [("options", "user-visible configuration", S+"surrogate_model.py"), ("fitted attributes", "result of the last training", S+"krg_based.py")], ["sm.predict_*", "sm.options"])

p("C04", "Predictions are row-wise, side-effect free and one row per point",
  "For every trained surrogate and every prediction method it supports (values, derivatives in each direction, variances, output derivatives), the result has one row per requested point and one column per trained output, and each row depends only on its own point: predicting a batch, any sub-batch, any reordering, or the points one at a time gives the same rows. Predicting changes neither the points passed in nor the model, so repeating any prediction after any other predictions gives the same result. A 1-D input is read as that many points of a one-dimensional problem, and points with the wrong number of variables are rejected with an error.",
  ["inputs", "histories", "configurations"], "all batches of points (sizes 1..n, orders, duplicates, points equal to training points, 1-D inputs), all prediction methods in any order, all models",
  "Tests predict one batch and compare an aggregate error; batching, order and repeated calls are not compared.",
  [S+"surrogate_model.py", S+"krg_based.py", S+"idw.py", S+"rbf.py", S+"rmts.py", S+"ls.py", S+"qp.py", S+"genn.py"],
  [("predict_values/derivatives/variances/output_derivatives", S+"surrogate_model.py")], [], ["sm.predict_*"])

p("C05", "Interpolating surrogates reproduce their training data",
  "Without noise options, a trained KRG, KPLS, KPLSK or GEKPLS (every correlation kernel and trend they accept), RBF (every polynomial degree), IDW (every power), or MFK-family model (highest-fidelity data) predicts, at each training point and for each output, the training value given there, to numerical accuracy. IDW predictions elsewhere stay within the range of the training outputs.",
  ["inputs", "configurations"], "all training sets with distinct points (dimension, number of points and outputs, scales, duplicates of coordinates) and all option combinations",
  "Tests look at an average error over validation points on a few fixed functions with loose bounds.",
  [S+"krg_based.py", S+"rbf.py", S+"idw.py", U+"kriging_utils.py", "smt/src/idw", "smt/src/rbf", A+"mfk.py"],
  [("correlation matrix solve", S+"krg_based.py"), ("jacobian and dense solve", S+"rbf.py"), ("inverse-distance weights", "smt/src/idw/idw.cpp")], [], ["sm.predict_values(xt)"])

p("C06", "Regression surrogates are exact on, and optimal in, their polynomial space",
  "LS reproduces every affine function and QP every full quadratic function of the inputs, at every point and for every output, from any sufficiently rich training set; on other data their training residual is orthogonal to their polynomial basis (least-squares optimality), output by output. A kriging model (KRG, KPLS, KPLSK) with constant, linear or quadratic trend, and radial basis functions with a constant or linear polynomial tail, reproduce everywhere any function of their trend space. Their derivatives are then those of that function exactly, and QP refuses to fit fewer points than it has coefficients.",
  ["inputs", "configurations"], "all integer coefficient vectors, training sets of sufficient rank, dimensions 1..4, several outputs",
  "Tests compare an error norm on fixed non-polynomial functions with tolerances that hide a wrong or missing term.",
  [S+"ls.py", S+"qp.py", S+"krg_based.py", U+"kriging_utils.py"], [("LinearRegression fit", S+"ls.py"), ("response surface basis", S+"qp.py"), ("regression trend", S+"krg_based.py")], [], ["sm.predict_values"])

p("C07", "Predicted derivatives are the derivatives of predicted values",
  "For every surrogate, application and option set that supports it, the predicted derivative with respect to an input is the derivative, in that input's own units, of the function returned by predict_values, at every point where that function is differentiable, for every input and every output. This includes points outside the training range and points sharing coordinates with training points.",
  ["inputs", "configurations"], "all models with derivative support (LS, QP, IDW, RBF, RMTB, RMTC, KRG/KPLS/KPLSK/GEKPLS with constant or linear trend, MFK family, GENN), all directions, outputs, input scalings and evaluation points",
  "Tests check few models on one function with loose aggregate error; multi-output, linear trend, differing input scales and extrapolation are not covered.",
  [S+"krg_based.py", S+"rbf.py", S+"idw.py", S+"ls.py", S+"qp.py", S+"rmts.py", S+"genn.py", A+"mfk.py", A+"vfm.py"], [("_predict_derivatives", S+"krg_based.py")], [], ["sm.predict_derivatives", "sm.predict_values"])

p("C08", "Kriging variance is non-negative, vanishes at data and differentiates right",
  "For every kriging-based model with variance support and without noise options, the predicted variance is finite and non-negative everywhere, zero (to numerical accuracy) at training points, strictly positive away from them, and scales with the square of the output scale. Where variance derivatives are offered (every kernel), they equal the derivatives of the predicted variance with respect to each input.",
  ["inputs", "configurations"], "all kernels, trends, dimensions, evaluation points including training points and far extrapolation",
  "Tests check the variance derivative for one function and kernel set at one point, and the sign almost nowhere.",
  [S+"krg_based.py", U+"kriging_utils.py", A+"mfk.py"], [("_predict_variances/predict_variance_derivatives", S+"krg_based.py")], [], ["sm.predict_variances", "sm.predict_variance_derivatives"])

p("C09", "Output derivatives are the sensitivities to the training outputs",
  "For surrogates offering output derivatives (IDW, RBF, RMTB, RMTC), the predicted derivative of the prediction at a point with respect to a training output equals the change of the prediction per unit change of that output after retraining, for every training point, and for every training derivative where those are part of the data, given for all inputs or some and in any order. Combining them linearly with the training outputs therefore reproduces the prediction for models linear in the data.",
  ["inputs", "configurations"], "all training points, prediction points, outputs and options (powers, basis width, polynomial degrees, with and without training derivatives)",
  "Tests compare one finite difference on one data set for each class.",
  [S+"idw.py", S+"rbf.py", S+"rmts.py"], [("_predict_output_derivatives", S+"rmts.py")], [], ["sm.predict_output_derivatives"])

p("C10", "Capabilities are declared truthfully and unsupported requests rejected",
  "Each model's declared capability flags match its behaviour: a capability declared unsupported is refused with NotImplementedError at the public call and has no effect, and one declared supported works for every valid argument, including single points and every input index, unless the chosen options exclude it (a kernel or trend without derivatives), in which case it is refused with an error and not answered. An input index out of range is refused rather than answered.",
  ["configurations", "inputs", "histories"], "every model class x capability (training derivatives, derivatives, output derivatives, variances, variance derivatives, adjoint API) x trained/untrained",
  "Tests only use capabilities they know are supported.",
  [S+"surrogate_model.py", U+"checks.py"]+[S+f for f in ("ls.py","qp.py","idw.py","rbf.py","rmts.py","krg_based.py","genn.py","gekpls.py")], [("supports / check_support / check_nx", U+"checks.py")],
  [("supports", "capability flags", S+"surrogate_model.py")], ["sm.supports", "sm.predict_*"])

p("C11", "Mixed-integer encodings round-trip and casting lands on admissible points",
  "For every mixed specification of continuous, integer and categorical variables, folding an unfolded representation of admissible points gives back those points, unfolded dimension and limits match the specification (one column in [0,1] per category), and category labels and indices convert both ways. Casting any point of the unfolded box yields an admissible point: continuous values kept, integers rounded to the nearest integer within their limits, and for each categorical variable exactly one category selected, the one with the largest weight; casting is idempotent and never changes the caller's array.",
  ["inputs", "configurations"], "all variable-type lists (orders, number of levels 1..4), limits, and points of the unfolded box including ties and boundary values",
  "Tests use two or three fixed variable lists and a handful of points, without ties or boundaries.",
  [A+"mixed_integer.py"], [("check_xspec_consistency/unfold_xlimits_with_continuous_limits/cast_to_discrete_values/fold_with_enum_index/unfold_with_enum_mask/cast_to_enum_value/cast_to_mixed_integer", A+"mixed_integer.py")], [], ["functions of smt.applications.mixed_integer"])

p("C12", "Mixed-integer sampling and surrogates only deal in admissible points",
  "A mixed-integer sampling returns only admissible points, of the requested number and dimension (folded or unfolded as requested). A mixed-integer surrogate trained on admissible points behaves as the wrapped surrogate trained on the unfolded points and evaluated at cast points only: any two inputs that cast to the same admissible point give identical predictions and variances, training data may be set and updated under every group name the wrapped model accepts, and the caller's arrays are unchanged. Context helpers (casting, folding, unfolding, building samplings and surrogates) agree with the stand-alone functions.",
  ["inputs", "configurations"], "variable-type lists, sampling methods and criteria, wrapped surrogates, training and evaluation points anywhere in the unfolded box",
  "Tests run one or two specs and check shapes or a value at one point.",
  [A+"mixed_integer.py"], [("MixedIntegerSamplingMethod, MixedIntegerSurrogateModel, MixedIntegerContext", A+"mixed_integer.py")], [], ["MixedIntegerContext"])

p("C13", "Latin hypercube and random samples are complete, stratified and reproducible",
  "LHS returns exactly the requested number of points, inside the limits, and for every criterion each variable has exactly one point in each of the n equal-width strata of its range (at stratum centres for the centred criteria). Random sampling returns the requested number of points inside the limits. With an integer random_state, LHS constructed twice gives the same points, those of a RandomState object of that seed, and different seeds give different points; with a RandomState object it draws only from that object, and no sampling call changes the limits array.",
  ["inputs", "configurations", "histories"], "every criterion (center, maximin, centermaximin, correlation, c, m, cm, corr, ese), dimension, number of points, limits and seed; repeated calls",
  "Tests check shapes and that two seeds agree, for one criterion; stratification is never checked.",
  [G+"lhs.py", G+"random.py", G+"sampling_method.py"], [("LHS._compute/_maximinESE/_PhiP_exchange", G+"lhs.py"), ("_scale_to_xlimits", G+"sampling_method.py")], [("random_state", "generator used", G+"lhs.py")], ["sampling(n)"])

p("C14", "Full-factorial samples form an evenly spaced, weighted, sufficient grid",
  "Full-factorial sampling of n points returns n distinct points of one tensor grid whose levels in each variable are evenly spaced over the whole range (both bounds included when there is more than one level), or the whole grid when clipping is requested, whose size is then the smallest reached by the greedy rule and at least n. Levels are allocated greedily according to the weights (equal by default): the next level always goes to the (first) variable whose share of the levels is furthest below its share of the weights. Neither the weights nor the limits given by the caller are changed.",
  ["inputs", "configurations"], "dimensions 1..4, n from 1, all weight vectors, clip on and off",
  "Tests plot or count one grid.",
  [G+"full_factorial.py", G+"sampling_method.py"], [("FullFactorial._compute", G+"full_factorial.py")], [], ["sampling(n)"])

p("C15", "Nested LHS levels are nested and of the requested sizes",
  "A nested LHS with L levels returns L arrays ordered from the largest to the requested size n: each level is twice as large as the next and each point of a level is present in the larger one, in the limits. The smallest level is a Latin hypercube, and the points a larger level adds to the next come from a Latin hypercube of that larger size (no two in one stratum). The limits given are unchanged.",
  ["inputs", "configurations"], "levels 1..4, n, dimensions, criteria, seeds",
  "One test builds one nested DOE.",
  [A+"mfk.py", U+"kriging_utils.py", G+"lhs.py"], [("NestedLHS.__call__", A+"mfk.py")], [], ["NestedLHS(nlevel, xlimits)(n)"])

p("C16", "EGO evaluates only admissible points and reports their true best",
  "Whatever the objective, initial data, criterion, variable types and parallel setting, EGO calls the objective only at points inside the limits that are admissible for the variable types, and the returned x_data/y_data are the initial data followed by the evaluated points with the objective values actually returned there (never a virtual value). The reported optimum is the pair of smallest value in that data, the number of added points is n_iter x n_parallel, and the caller's initial arrays and options are unchanged.",
  ["histories", "inputs", "configurations", "fault_sequences"], "objectives (including constant, discontinuous), initial DOE given as x, x and y, or size; criteria EI/SBO/LCB; parallel 1..3; all qEI strategies; mixed variables; surrogate failures",
  "Tests run a few seeds and compare x_opt with the known optimum to 1 decimal, so bookkeeping is not observed.",
  [A+"ego.py"], [("EGO.optimize/_setup_optimizer/_find_best_point/_evaluator", A+"ego.py")], [("x_data, y_data", "history of evaluations", A+"ego.py")], ["EGO.optimize(fun)", "the objective itself"])

p("C17", "EGO acquisition criteria and virtual points follow their definitions",
  "At every point, expected improvement is non-negative, equals the closed form for the surrogate's mean and variance and the best value so far, and is zero where the variance is zero and no improvement is predicted; the lower-confidence-bound and surrogate-based criteria equal mean minus three standard deviations and mean. The point proposed is the best of the local searches made. In parallel mode the provisional value of a pending point is the mean (KB), mean plus or minus the chosen multiple of the standard deviation (KBUB, KBLB, KBRand), or the current minimum (CLmin), as the chosen strategy says.",
  ["inputs", "configurations", "histories"], "all points, surrogate states, strategies",
  "Tests only observe the end result of an optimisation.",
  [A+"ego.py"], [("EI/SBO/LCB/_get_virtual_point", A+"ego.py")], [], ["EGO.EI", "EGO.LCB", "EGO.SBO"])

p("C18", "Mixture-of-experts predictions combine experts by cluster probabilities",
  "For a trained mixture of experts the cluster probabilities of any point are non-negative and sum to one. With smooth recombination predicted values are the probability-weighted sum of the experts' predictions and variances the squared-probability-weighted sum of theirs; without it each point gets exactly the values and variances of the expert of its most probable cluster. Each row depends only on its own point.",
  ["inputs", "configurations"], "numbers of clusters, smooth on/off, expert types, points inside and outside the training range",
  "Tests check only an aggregate error of the mixture.",
  [A+"moe.py"], [("_proba_cluster/_predict_smooth_output/_predict_hard_output and variances", A+"moe.py")], [("_experts", "expert per cluster", A+"moe.py"), ("distribs", "cluster densities", A+"moe.py")], ["MOE.predict_values/variances"])

p("C19", "Mixture of experts enables, selects and wraps experts as requested",
  "The enabled experts are exactly the available ones, in order, that satisfy the requested derivative and variance support and the allow and deny lists, and capability flags follow; unusable combinations are rejected with an error. Training fits one expert per cluster chosen as the one with the smallest validation error among the enabled ones, selects the Heaviside factor of smallest error when asked to, uses every training point, keeps caller arrays unchanged, and a one-cluster mixture predicts as its single expert. The surrogate-model wrapper of the mixture predicts exactly as the mixture with the same options and data.",
  ["configurations", "inputs", "histories"], "allow/deny lists, derivative and variance support, training and validation data given or split, cluster counts, wrapper options",
  "Tests instantiate a few allow/deny lists and compare lengths.",
  [A+"moe.py"], [("MOE._check_inputs/_enabled_experts/_find_best_model/_select_best_model, MOESurrogateModel", A+"moe.py")], [], ["MOE.enabled_experts", "MOE.train", "MOESurrogateModel"])

p("C20", "Variable-fidelity bridges combine both models by sum or product",
  "With an additive bridge, VFM predicts the low-fidelity model plus the discrepancy model, and with a multiplicative bridge their product, at every point and output; derivatives follow the sum and product rules, and high-fidelity training data are reproduced when both models interpolate. The model honours the option dictionaries given for both models, leaves them and the caller's data unchanged, so that the same dictionary can serve both models or another VFM. Missing data, unknown model names and derivatives one of the models cannot give are refused with an error.",
  ["inputs", "configurations", "histories"], "bridge types, low/high model names and options, with and without derivatives, data sets",
  "One test per bridge type compares an error norm.",
  [A+"vfm.py"], [("VFM.train/_predict_values/_predict_derivatives", A+"vfm.py")], [], ["VFM.predict_values", "VFM.predict_derivatives"])

p("C21", "Multi-fidelity kriging chains levels consistently",
  "A trained MFK, MFKPLS or MFKPLSK predicts its highest-fidelity level, reproduces that level's data (and each intermediate level's data when asked for that level), with derivatives equal to those of its predictions and per-level variances that are non-negative and zero at the points of their own level. With a single level and the same hyperparameters it predicts the same values as the corresponding single-fidelity kriging of the same data, and the same variances up to the unbiased estimate of the process variance. When the high-fidelity data are rho(x) times the low-fidelity data plus a trend, so are the predictions everywhere. Adding a level, changing data and retraining gives the model of the current data; starting hyperparameters given as one number, one per input, one per level or one per level and input mean the same for each level and input.",
  ["inputs", "configurations", "histories"], "1..3 levels, rho regression constant/linear, trends, PLS components, nested data, histories of level updates",
  "Tests use two levels, one function and a loose error.",
  [A+"mfk.py", A+"mfkpls.py", A+"mfkplsk.py"], [("MFK._train/_predict_intermediate_values/_predict_derivatives/predict_variances_all_levels", A+"mfk.py")], [], ["MFK.predict_values", "MFK.predict_variances_all_levels"])

p("C22", "The result cache is transparent",
  "Running a cached computation returns, whatever was stored before, the outputs computing them afresh would give: results are reused only when every input is equal, a result saved after one run is loaded by the next, and a missing, truncated or unreadable cache file (or one that holds no cache) never makes the run fail or return something else. Without a cache directory nothing is read or written. A trained model obtained through the cache predicts exactly as one trained without it. Many different operations and inputs kept in one directory never answer for each other.",
  ["crash_points", "histories", "fault_sequences", "inputs"], "all sequences of runs with equal and different inputs, with the cache file removed, truncated at any byte or replaced between runs, data_dir set or not",
  "One test caches one value twice.",
  [U+"caching.py", S+"rbf.py", S+"rmts.py"], [("cached_operation/_caching_load/_caching_save/_caching_checksum", U+"caching.py")], [("<data_dir>/<md5>.dat", "stored outputs", U+"caching.py")], ["cached_operation", "RBF/RMTB/RMTC with data_dir"])

p("C23", "Printing obeys its switches, nests properly and always unwinds",
  "A printer writes only while active, indents by its current nesting depth and returns to the depth and activity it had when a timed or activity context ends, also when the body raises. Each completed timed operation appends one non-negative time under its name, retrievable singly or all together. With print_global off a surrogate writes nothing to standard output in any operation; with the problem, training or prediction option off it does not write that section, and with the prediction option off predictions write nothing.",
  ["histories", "fault_sequences", "configurations"], "all nestings of contexts, exceptions in any body, print-option combinations, all surrogate operations",
  "No test raises inside a context or captures the output.",
  [U+"printer.py", U+"silence.py", S+"surrogate_model.py"], [("Printer._timed_context/_active", U+"printer.py"), ("Printer.active/__call__", U+"printer.py")], [("depth", "nesting level", U+"printer.py"), ("active", "switch", U+"printer.py"), ("times", "recorded durations", U+"printer.py")], ["Printer", "sys.stdout"])

p("C24", "Line searches return a step meeting their decrease conditions",
  "For every differentiable objective and descent direction, each line search (null, backtracking, bracketed, quadratic, cubic) terminates and returns a finite point on the search ray and the data it reports there; backtracking returns a non-negative step of sufficient decrease, and the bracketing searches, when such a step exists within their bracketing range, one that meets the strong Wolfe conditions (sufficient decrease and curvature).",
  ["inputs", "histories"], "polynomial and other objectives, starting points, directions, curvatures, initial step scales",
  "Only exercised indirectly through one RMTS training.",
  [U+"line_search.py"], [("BacktrackingLineSearch/BracketedLineSearch/QuadraticLineSearch/CubicLineSearch", U+"line_search.py")], [], ["get_line_search_class(name)(x, dx, func, grad)(x_scale)"])

p("C25", "Linear solvers solve the system they were given",
  "Every direct solver (dense LU, dense Cholesky, sparse LU) returns the solution of A x = b for every non-singular (for Cholesky, symmetric positive definite) matrix, and every iterative solver (Krylov with each preconditioner, stationary, multigrid with a smoother) reaches the solution on symmetric, for the stationary methods diagonally dominant, positive definite systems, for vectors, columns of a larger array and several right-hand sides, in place in the array supplied. Solving again with a new right-hand side, or setting up again with a new matrix, is unaffected by earlier solves, stationary iterations are the declared (damped) ones sweep by sweep, and the right-hand side and matrix are unchanged.",
  ["inputs", "histories", "configurations"], "small integer matrices, right-hand sides, solver options, sequences of setup/solve calls, array layouts",
  "Tests solve one system per solver once.",
  [U+"linear_solvers.py"], [("LinearSolver subclasses", U+"linear_solvers.py")], [], ["get_solver(name)._setup/_solve"])

p("C26", "RMT splines are smooth piecewise polynomials that fit and extrapolate right",
  "A trained RMTB or RMTC is a piecewise polynomial of the requested degree on each of its cells, continuous with continuous derivatives across their boundaries (up to the degree less one for RMTB, the first for RMTC), and, with the quadratic approximation term and data that determine it, minimises energy plus weighted misfit of the training values and derivatives: no other spline of the family has a lower objective, constants are reproduced, and lowering the energy and regularisation weights drives the fit of the training values, and of training derivatives when given, towards exactness where the system is not over-determined. Outside the limits, with extrapolation enabled, predictions extend linearly from the nearest boundary point; without it they are constant, equal to the value at the nearest boundary point. Training points outside the limits are refused.",
  ["inputs", "configurations"], "dimension, numbers of elements or control points, orders, limits, weights, points on cell boundaries and outside the limits",
  "Tests use error norms at random points.",
  [S+"rmts.py", S+"rmtb.py", S+"rmtc.py", "smt/src/rmts"], [("RMTS._predict_values with extrapolation", S+"rmts.py"), ("compute_jac", "smt/src/rmts/rmtc.cpp")], [], ["RMTB/RMTC.predict_*"])

p("C27", "Neural-network gradients, mini-batches and optimisers are exact",
  "For every network shape, activation and regularisation, back-propagated gradients equal the derivatives of the training cost with respect to each weight and bias (including the gradient-enhanced terms), and the network's predicted derivatives equal those of its predictions. Mini-batches of an epoch contain every training example exactly once with its own output and derivatives, and normalisation is undone exactly in predictions. Each optimiser update follows its published rule for the given hyper-parameters, and an accepted line-search step never increases the cost.",
  ["inputs", "histories", "configurations"], "layer counts, widths, numbers of inputs and outputs, batch sizes, seeds, hyper-parameters",
  "Tests train on two functions and look at the final error.",
  [U+"neural_net/"+f for f in ("bwd_prop.py","fwd_prop.py","cost.py","loss.py","data.py","optimizer.py","model.py","activation.py","metrics.py")], [("L_model_backward", U+"neural_net/bwd_prop.py"), ("random_mini_batches, normalize_data", U+"neural_net/data.py"), ("Adam/GD.update_parameters", U+"neural_net/optimizer.py")], [], ["smt.utils.neural_net"])

p("C28", "GENN learns from values and derivatives and predicts in user units",
  "A trained GENN predicts finite values and derivatives of the right shape in the units of the training data, for values-only and for gradient-enhanced training, any number of inputs and outputs. With a fixed seed, training again, or training a new object, on the same data gives the same predictions, and neither training nor evaluation alters the training data or options. Its training uses the supplied derivatives exactly when it is asked to (gradient coefficient non-zero).",
  ["histories", "inputs", "configurations"], "data sets, network shapes, batch sizes, seeds, histories of trainings and predictions",
  "Tests train twice on fixed functions and compare errors.",
  [S+"genn.py", U+"neural_net/model.py"], [("GENN._train/_predict_values/_predict_derivatives", S+"genn.py")], [], ["GENN.predict_values", "GENN.predict_derivatives"])

p("C29", "Benchmark problems return true values and derivatives, row by row",
  "For every benchmark problem, every dimension and option it accepts, and every point of its domain, the value requested with derivative index kx is the partial derivative of the value function with respect to that variable, each row depends only on its own point, and the points passed in are unchanged. Malformed requests (wrong number of variables, index out of range) are rejected with an error.",
  ["inputs", "configurations"], "all problems (sphere, branin, rosenbrock, lp norm, tensor products, cantilever beam, robot arm, torsion vibration, water flow, welded beam, wing weight and the n-dimensional variants), all kx, points",
  "Tests compare a few derivative entries at ten random points with a loose tolerance for some problems.",
  [B+f for f in ("problem.py","branin.py","cantilever_beam.py","lp_norm.py","robot_arm.py","rosenbrock.py","sphere.py","tensor_product.py","torsion_vibration.py","water_flow.py","water_flow_lfidelity.py","welded_beam.py","wing_weight.py")], [("Problem.__call__ and _evaluate", B+"problem.py")], [], ["problem(x, kx)"])

p("C30", "Wrapped problems are exact embeddings of the original",
  "A reduced problem evaluated at the kept variables equals the original problem evaluated at the point with those variables and, for the others, the value at the fraction w of their limits, in values and derivatives, with the limits of the kept variables in the order they were named; reductions of reductions compose. The n-dimensional wrappers are the reductions they document: the beam as a function of its section heights, the arm as a function of the joint angles after the first, Rosenbrock of all variables but the first, and the step function is the tensor product of hyperbolic tangents.",
  ["inputs", "configurations"], "subsets of kept variables, weights, dimensions, points, kx",
  "Tests evaluate shape and one derivative check.",
  [B+f for f in ("reduced_problem.py","ndim_cantilever_beam.py","ndim_robot_arm.py","ndim_rosenbrock.py","ndim_step_function.py")], [("ReducedProblem._evaluate", B+"reduced_problem.py")], [], ["ReducedProblem(problem, dims, w)"])

p("C31", "Kriging noise options mean what they say",
  "Kriging with noise options (noise0, eval_noise, use_het_noise) is the Gaussian-process regression of the declared noise: its predictions are those of kriging whose correlation matrix carries the noise-to-process variance ratios given (one, or one per training point) or estimated on its diagonal. They and the variances are finite, variances non-negative, and neither depends on the order of the training points. An estimated noise lies within noise_bounds. Points with negligible noise are interpolated. With pointwise noise estimated from repeated observations, training on the repeated data equals kriging of the distinct points with the mean outputs and, as noise, the sample variance (of the normalised outputs) divided by the number of repetitions, whatever the number of outputs.",
  ["inputs", "configurations"], "data with and without repetitions, one or several outputs, noise given or estimated, homo- and heteroscedastic, KRG/KPLS/KPLSK/MFK, kernels, trends, both hyperparameter optimisers",
  "One regression test per feature with loose bounds.",
  [S+"krg_based.py"], [("_new_train noise handling, _check_param, _reduced_likelihood_function", S+"krg_based.py")], [], ["sm.predict_values/variances, sm.optimal_noise of KRG/KPLS/KPLSK/MFK with noise0, eval_noise, use_het_noise"])

p("C32", "Predictions are equivariant under relabelling and rescaling of the data",
  "Reordering the training points, or reordering outputs, changes no prediction beyond reordering outputs; permuting the input variables permutes accordingly. Shifting and scaling an output shifts and scales its predictions, derivatives and (quadratically) variances, and for models that normalise their inputs, shifting and scaling the inputs together with the evaluation points leaves predictions unchanged.",
  ["inputs", "configurations"], "all permutations and affine maps, and chains of them, over LS, QP, IDW, RBF, RMTB, RMTC, KRG, KPLS, KPLSK, GEKPLS and the MFK family, with fixed and with trained hyperparameters",
  "Tests never compare two trained models.",
  [S+"surrogate_model.py", S+"krg_based.py", S+"idw.py", S+"rbf.py", S+"ls.py", S+"qp.py", S+"rmts.py", U+"kriging_utils.py"], [("standardization", U+"kriging_utils.py")], [], ["sm.predict_*"])

p("C33", "Reported error measures equal their definitions",
  "The RMS error helper returns the norm of prediction minus reference divided by the norm of the reference, over the given validation values, or the training values when none are given, and over the derivative in the given direction when one is named; relative error against a problem is the same measure. It changes neither the model nor the data.",
  ["inputs", "configurations"], "models, data, with/without validation data, with/without derivative index",
  "Tests only use it as a yardstick.",
  [U+"misc.py"], [("compute_rms_error", U+"misc.py")], [], ["compute_rms_error"])

p("C34", "Kriging hyperparameters maximise the likelihood of the declared model",
  "The reduced likelihood that kriging maximises is the Gaussian log-likelihood (up to constants, base 10) of the normalised outputs under the declared correlation, trend and noise, plus, for MGP, its Gaussian prior. Its analytic gradient and Hessian are its derivatives, for every kernel, trend, noise option and number of outputs. The hyperparameters (and noise) selected lie within their bounds; the likelihood reported is the one at them, and no worse than at the starting hyperparameters.",
  ["inputs", "configurations"], "kernels, trends, noise options, number of outputs, KRG/KPLS/KPLSK/GEKPLS/MGP, both hyperparameter optimisers, arbitrary hyperparameters",
  "Tests check the gradient by finite differences for one configuration, and never the value, the bounds or the result of the search.",
  [S+"krg_based.py", S+"krg_mgp.py", U+"kriging_utils.py"], [("_reduced_likelihood_function/_gradient/_hessian", S+"krg_based.py"), ("_optimize_hyperparam", S+"krg_based.py"), ("_reduced_log_prior", S+"krg_mgp.py")],
  [("optimal_theta, optimal_noise, optimal_rlf_value", "result of the search", S+"krg_based.py")], ["sm.optimal_theta", "sm.optimal_rlf_value", "sm._reduced_likelihood_*"])

p("C35", "The marginal Gaussian process models a projection and its uncertainty",
  "MGP predicts as kriging whose correlation only sees the inputs through their projection on n_comp directions: its values are those of that kriging model at the trained directions, and moving a point along directions that it does not see changes neither its values (constant trend) nor its kriging variance. Its variance is 4/3 of the kriging variance plus the spread of the prediction, and of the variance, due to the uncertainty of the directions (inverse of minus the Hessian of the likelihood), in the units of the outputs squared. A point given by its projection stands for its lifting: get_u_from_x inverts get_x_from_u, and predictions and variances at a projection are those at the lifted point. Predictions are row-wise and training data are reproduced.",
  ["inputs", "configurations"], "data, dimension, number of directions, trend, scale of the outputs, priors, points and their projections",
  "Tests check a few derivatives by finite differences and one error level; the variance is never compared with its definition or between scales.",
  [S+"krg_mgp.py"], [("predict_variances, predict_values, get_x_from_u, get_u_from_x, _specific_train", S+"krg_mgp.py")],
  [("embedding", "directions found by training", S+"krg_mgp.py")], ["MGP.predict_values/predict_variances/get_u_from_x/get_x_from_u"])

p("C36", "Kriging through partial least squares models the projection it declares",
  "KPLS, and each level of MFKPLS, is kriging whose distances see the inputs through the squared partial-least-squares rotations of the training data (n_comp components), and reproduces kriging built on them. GEKPLS in addition adds, next to each training point and along the inputs of largest average weight, extra_points first-order estimates from the given derivatives. KPLSK and MFKPLSK refine, with one hyperparameter per input, a start lifted from that model, and never end with a lower likelihood. An input without influence on the data (zero derivative, zero weight) has none on the predictions.",
  ["inputs", "configurations"], "data, dimension, number of components, kernels, trends, step and number of the additional points, levels of fidelity",
  "Tests compare an error norm per model on a few functions; no test compares the model with its definition.",
  [S+"kpls.py", S+"gekpls.py", S+"kplsk.py", S+"krg_based.py", U+"kriging_utils.py", A+"mfkpls.py", A+"mfkplsk.py"], [("_compute_pls", S+"kpls.py"), ("ge_compute_pls", U+"kriging_utils.py"), ("componentwise_distance_PLS", U+"kriging_utils.py")],
  [("coeff_pls", "projection found by training", S+"kpls.py")], ["predict_values/predict_variances of KPLS, KPLSK, GEKPLS, MFKPLS, MFKPLSK"])

p("C37", "Interpolants by distance follow the formula they declare",
  "Inverse distance weighting predicts the mean of the training outputs weighted by distance to the power -p, for every p, including at and arbitrarily near a training point and far from all of them. Radial basis functions predict the sum of Gaussians of the distances scaled by d0 (one number, or one per input) plus the declared polynomial tail, that solves the regularised interpolation system. Both hold for every output, with derivatives those of the formula, after every retraining.",
  ["inputs", "configurations", "histories"], "p, d0 (scalar, list, array), poly_degree, reg, dimensions, outputs, data, retrainings, points near, at and far from the data",
  "Tests look at an aggregate error for the default options.",
  [S+"idw.py", S+"rbf.py", "smt/src/rbf/rbf.cpp", "smt/src/idw/idw.cpp"], [("compute_jac", "smt/src/rbf/rbf.cpp"), ("compute_jac", "smt/src/idw/idw.cpp")], [], ["IDW/RBF.predict_values/predict_derivatives/predict_output_derivatives"])

p("C38", "Noise of multi-fidelity kriging means what its options say, level by level",
  "In multi-fidelity kriging, noise0 (one number for all levels, one per level, or one per training point with use_het_noise) is the noise-to-process variance ratio of each level and the predictions are those of recursive co-kriging with those ratios; eval_noise estimates one within noise_bounds for each level, or, for observations repeated with use_het_noise, the variance of the mean at each distinct point. With optim_var the variance at the samples is zero, whatever noise was declared or estimated, while the predicted values at them are kept. Training alters neither the training data nor, in nested designs, the samples that are interpolated.",
  ["inputs", "configurations"], "levels, noise given or estimated, single, per level, per point, repeated observations, optim_var, kernels, trends, nested or not",
  "One test per feature with loose bounds on one function.",
  [A+"mfk.py", S+"krg_based.py"], [("_new_train_iteration, _new_train_finalize, _check_param", A+"mfk.py")], [("noise0, optimal_noise_all", "noise per level", A+"mfk.py")], ["MFK.predict_values/predict_variances with noise0, eval_noise, use_het_noise, optim_var"])

p("C39", "Objects do not interfere: each answers as if it were alone",
  "A surrogate, application, sampling method, problem or linear solver answers as its own history (options, data, training, requests) says, whatever is done between its operations to other objects of the same or other classes, alive or dropped, sharing caller arrays with it or not, and for deterministic models also when they are used from different threads. A deep copy starts with the state of its original, and from then on neither affects the other. No operation changes arrays or option dictionaries that several objects were given.",
  ["histories", "schedules", "configurations"], "programs over three objects of any classes, interleavings of set, options, train, predict, copy, replace; shared or separate arrays; threads",
  "Each test builds one object at a time and never returns to an earlier one.",
  [S+"surrogate_model.py", S+"idw.py", S+"rbf.py", S+"rmts.py", S+"krg_based.py", U+"options_dictionary.py", A+"mfk.py", "smt/sampling_methods/lhs.py"], [("training_points, options", S+"surrogate_model.py"), ("OptionsDictionary.__init__", U+"options_dictionary.py")],
  [("training_points, options, idwc/rbfc/rmtsc", "per-object state", S+"surrogate_model.py")], ["predictions, samplings, solutions of each object"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
