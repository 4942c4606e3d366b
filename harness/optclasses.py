"""C01 on the public classes (spec/OptionsClassTrace.tla)."""
import itertools
import numpy as np
from harness.core import attempt, same
from harness.scen import scenario

XL = np.array([[0.0, 1.0], [-1.0, 2.0]])


def table():
    import smt.surrogate_models as sm
    import smt.applications as ap
    import smt.applications.moe as moe
    import smt.problems as pb
    import smt.sampling_methods as sa
    from smt.applications.mixed_integer import MixedIntegerContext
    from smt.surrogate_models.krg_mgp import MGP
    from smt.utils import linear_solvers as ls
    T = []
    gen = {"print_global": (False, "no"), "print_training": (False, 3.5), "print_prediction": (False, None and 0 or "x"),
           "print_problem": (False, [1]), "print_solver": (False, "y")}
    krg = dict(gen, poly=("linear", 3), corr=("matern52", 2.0), nugget=(1e-8, "n"), theta0=([0.5], None),
               theta_bounds=([1e-4, 10.0], "b"), hyper_opt=("TNC", 1), eval_noise=(True, "yes"), noise0=([0.1], 0.1), noise_bounds=([1e-9, 1.0], 3),
               use_het_noise=(True, "no"))
    krg.pop("theta0")
    kpls = dict(krg, corr=("abs_exp", 4), n_comp=(2, "two"))
    T.append(("KRG", sm.KRG, {}, krg)); T.append(("KPLS", sm.KPLS, {}, kpls))
    T.append(("KPLSK", sm.KPLSK, {}, dict(kpls, corr=("exp", 4))))
    T.append(("GEKPLS", sm.GEKPLS, {}, dict(kpls, xlimits=(XL, [[0, 1]]), delta_x=(1e-3, "d"), extra_points=(2, 1.5))))
    T.append(("MGP", sm.MGP if hasattr(sm, "MGP") else MGP, {}, dict(gen, n_comp=(2, 1.5), prior=({"mean": [0.0], "var": 1.0}, [1]))))
    T.append(("LS", sm.LS, {}, dict(gen, data_dir=("d", 3)))); T.append(("QP", sm.QP, {}, dict(gen, data_dir=("d", 3))))
    T.append(("IDW", sm.IDW, {}, dict(gen, data_dir=("d", 3), p=(3.0, "p"))))
    T.append(("RBF", sm.RBF, {}, dict(gen, data_dir=("d", 3), d0=(2.0, "d"), poly_degree=(1, "one"), reg=(1e-8, "r"), max_print_depth=(2, "m"))))
    rmts = dict(gen, smoothness=(2.0, "s"), regularization_weight=(1e-8, "r"), energy_weight=(1e-3, "e"), extrapolate=(True, "t"),
                min_energy=(False, "f"), approx_order=(2, "a"), solver=("lu", 3), derivative_solver=("lu", 3), grad_weight=(0.4, "g"), solver_tolerance=(1e-9, "s"),
                nonlinear_maxiter=(3, 2.5), line_search=("bracketed", 3), save_energy_terms=(True, "s"), data_dir=("d", 3), max_print_depth=(3, 2.5))
    T.append(("RMTB", sm.RMTB, dict(xlimits=XL), dict(rmts, order=(4, "o"), num_ctrl_pts=(8, "n"))))
    T.append(("RMTC", sm.RMTC, dict(xlimits=XL), dict(rmts, num_elements=(5, "n"))))
    T.append(("GENN", sm.GENN, {}, dict(gen, mini_batch_size=(8, 2.5), num_iterations=(3, "i"), seed=(4, "s"))))
    mfk = dict(krg, rho_regr=("linear", 3), optim_var=(True, "t"))
    T.append(("MFK", ap.MFK, {}, mfk)); T.append(("MFKPLS", ap.MFKPLS, {}, dict(mfk, corr=("abs_exp", 3), n_comp=(2, "t"))))
    T.append(("MFKPLSK", ap.MFKPLSK, {}, dict(mfk, corr=("abs_exp", 3), n_comp=(2, "t"))))
    T.append(("VFM", ap.VFM, {}, dict(type_bridge=("Multiplicative", 5), options_LF=({"a": 1}, 3), options_bridge=({"b": 1}, [2]),
                                      X_LF=(np.zeros((2, 2)), [1]), y_HF=(np.zeros((2, 1)), "y"), dy_LF=(np.zeros((2, 2)), [1]))))
    T.append(("MOE", ap.MOE, {}, dict(smooth_recombination=(False, "s"), n_clusters=(3, "n"), heaviside_optimization=(True, "h"), derivatives_support=(True, "d"),
                                      variances_support=(True, "v"), allow=(["KRG"], None) if False else (["KRG"], ["KRG"]))))
    T[-1][3].pop("allow")
    T.append(("EGO", ap.EGO, {}, dict(criterion=("LCB", 5), n_iter=(4, "n"), n_max_optim=(5, "m"), n_start=(4, "s"), n_parallel=(2, "p"), qEI=("KBUB", 3),
                                      n_doe=(7, "x"), verbose=(True, "v"), enable_tunneling=(True, "t"), xdoe=(np.zeros((2, 2)), [1]), ydoe=(np.zeros((2, 1)), 3),
                                      xlimits=(XL, [[0, 1]]))))
    T.append(("LHS", sa.LHS, dict(xlimits=XL), dict(criterion=("maximin", 3))))
    T.append(("Random", sa.Random, dict(xlimits=XL), {}))
    T.append(("FullFactorial", sa.FullFactorial, dict(xlimits=XL), dict(clip=(True, "c"))))
    T[-1][3].update(weights=([1.0, 2.0], 3))
    for n, kw in (("Sphere", {}), ("Rosenbrock", dict(ndim=2)), ("RobotArm", dict(ndim=2)), ("CantileverBeam", dict(ndim=3)), ("LpNorm", {})):
        T.append((n, getattr(pb, n), kw, dict(return_complex=(True, "c"), name=("other", 3))))
    T.append(("TensorProduct", pb.TensorProduct, dict(func="cos"), dict(return_complex=(True, "c"), name=("o", 3), width=(2.0, "w"))))
    T.append(("Branin", pb.Branin, {}, dict(return_complex=(True, "c"), name=("o", 3))))
    T.append(("WaterFlow", pb.WaterFlow, {}, dict(use_FD=(True, "c"), name=("o", 3))))
    T.append(("WeldedBeam", pb.WeldedBeam, {}, dict(use_FD=(True, "c"), name=("o", 3))))
    T.append(("WingWeight", pb.WingWeight, {}, dict(use_FD=(True, "c"), name=("o", 3))))
    T.append(("TorsionVibration", pb.TorsionVibration, {}, dict(use_FD=(True, "c"), name=("o", 3))))
    T.append(("KrylovSolver", ls.KrylovSolver, {}, dict(print_init=(False, "p"), print_solve=(False, 3), solver=("gmres", "zz"), pc=("lu", "zz"), interval=(3, "i"), atol=(1e-3, "a"), ilimit=(4, "i"))))
    T.append(("StationarySolver", ls.StationarySolver, {}, dict(print_init=(False, "p"), solver=("jacobi", "zz"), damping=(0.5, "d"), interval=(2, "i"), ilimit=(3, "a"))))
    T.append(("DirectSolver", ls.DirectSolver, {}, dict(print_init=(False, "p"), alg=("ilu", "zz"))))
    return T


def read(o, opts, dflt):
    r = {}
    for n in opts:
        try:
            v = o.options[n]
        except Exception:
            r[n] = "lost"
            continue
        r[n] = "good" if same(v, opts[n][0]) else "default" if same(v, dflt[n]) else "other"
    return r


def events(cls, base, opts, rng, nrand):
    names = list(opts)
    dflt = {}
    o = cls(**base)
    for n in names:
        dflt[n] = o.options[n]
    ev = []

    def val(n, v):
        if n == "zz_unknown":
            return 1
        return dflt[n] if v == "default" else opts[n][0] if v == "good" else opts[n][1]

    def construct(kvs):
        nonlocal o
        kw = dict(base)
        kw.update({n: val(n, v) for n, v in kvs})
        res, obj = attempt(cls, **kw)
        if res == "ok":
            o = obj
        vals = read(o, opts, dflt) if res == "ok" else {n: "none" for n in names}
        ev.append(dict(op="construct", kvs=[dict(n=n, v=v) for n, v in kvs], res=res, vals=vals))
        return res == "ok"

    def assign(op, kvs):
        if op == "set":
            n, v = kvs[0]
            res, _ = attempt(o.options.__setitem__, n, val(n, v))
        else:
            res, _ = attempt(o.options.update, {n: val(n, v) for n, v in kvs})
        ev.append(dict(op=op, kvs=[dict(n=n, v=v) for n, v in kvs], res=res, vals=read(o, opts, dflt)))

    construct([])
    for n in names:
        construct([(n, "good")])
        construct([(n, "bad")])
        construct([])
        assign("set", [(n, "good")])
        assign("set", [(n, "bad")])
        assign("set", [("zz_unknown", "good")])
        if dflt[n] is not None:      # a default of None is only the absence of a value
            assign("set", [(n, "default")])
    construct([("zz_unknown", "good")])
    construct([])
    for _ in range(nrand):
        k = rng.randint(1, min(4, len(names)) + 1) if names else 0
        sel = [names[i] for i in rng.permutation(len(names))[:k]]
        kvs = [(n, ["default" if dflt[n] is not None else "good", "good", "good", "bad"][rng.randint(4)]) for n in sel]
        if rng.rand() < 0.2:
            kvs.insert(rng.randint(len(kvs) + 1), ("zz_unknown", "good"))
        if rng.rand() < 0.4:
            if not construct(kvs):
                construct([])
        else:
            assign("update", kvs)
    return ev


def run(ctx):
    traces = []
    for name, cls, base, opts in table():
        traces.append(scenario("class-" + name, dict(names=list(opts) or ["zz_none"]),
                               (lambda: events(cls, base, opts, ctx.rng, ctx.n(20, 200)))))
    traces = [t for t in traces if t["cfg"]["names"] != ["zz_none"]]
    ctx.validate("OptionsClassTrace", traces)
