"""Recording runs of EGO (C16, C17)."""
import copy
from harness.core import *


def specs():
    """variable specifications: types of the specification and the library, limits"""
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    def F(lo, hi): return (dict(t="F", k=1), FLOAT, [lo, hi], [fx(lo), fx(hi)])
    def I(lo, hi): return (dict(t="I", k=1), INT, [lo, hi], [fx(lo), fx(hi)])
    def E(k): return (dict(t="E", k=k), (ENUM, k), ["c%d" % j for j in range(k)], [0, fx(k - 1)])
    return [[F(-1.0, 2.0)], [F(0.0, 1.0), F(-2.0, 3.0)], [F(-1.0, 2.0), I(-2, 3)], [I(0, 6), I(-3, 2)], [E(3), F(0.0, 2.0)], [F(-1.0, 1.0), E(2), I(0, 4)], [F(0.0, 10.0), F(0.0, 1.0), F(-1.0, 0.0)],
            [I(0, 20)]]


def objective(spec, seed):
    r = np.random.RandomState(seed)
    c = r.rand(len(spec)); a = r.rand(len(spec)) * 3

    def val(row):
        v = 0.0
        for (t, _, l, _), ci, ai, xi in zip(spec, c, a, row):
            lo, hi = (l[0], l[1]) if t["t"] != "E" else (0, max(1, t["k"] - 1))
            u = (xi - lo) / (hi - lo)
            v += (u - ci) ** 2 + 0.3 * np.sin(3 + 2 * ai * u)
        return v
    return val


def uncopied_limits(spec, form):
    lim = [s[2] for s in spec]
    if any(s[0]["t"] == "E" for s in spec):
        a = np.empty(len(lim), dtype=object)
        for i, l in enumerate(lim):
            a[i] = list(l)
        return a
    return np.array(lim, dtype=float)


def unf(types, F):
    rows = []
    for p in F:
        r = []
        for t, v in zip(types, p):
            r += [1.0 if j == int(v) else 0.0 for j in range(t["k"])] if t["t"] == "E" else [v]
        rows.append(r)
    return np.array(rows)


def play(b, part):
    from smt.applications import EGO
    from smt.applications.ego import Evaluator
    from smt.surrogate_models import KRG, KPLS
    spec = specs()[b["spec"] - 1]
    types = [s[0] for s in spec]
    cont = all(t["t"] == "F" for t in types)
    ev = []
    f = objective(spec, b["seed"] % 50)
    state = dict(ntrain=0, fail=False, seen=0, trained=False, rounds=0, found=[], broken=False)

    def fun(x):
        x = np.atleast_2d(x)
        y = np.array([[f(r)] for r in x])
        ev.append(dict(op="eval", x=fxm(x), y=fxs(y)))
        return y

    base = KPLS if b["spec"] in (2, 7) and b["seed"] % 4 == 0 else KRG

    class Rec(base):
        def set_training_values(self, xt, yt, name=None):
            xt, yt = np.asarray(xt), np.asarray(yt)
            e = dict(op="train", x=fxm(xt), y=fxs(yt), mean=0, sd=0, ymin=0)
            state["fail"] = False
            if state["trained"]:
                with Quiet():
                    e["mean"] = fx(base.predict_values(self, xt[-1:])[0, 0])
                    e["sd"] = fx(np.sqrt(max(0.0, base.predict_variances(self, xt[-1:])[0, 0])))
                    e["ymin"] = fx(np.min(yt[:-1])) if len(yt) > 1 else 0
                    if part == "C17" and len(xt) == state["len"] + 1 and not b["tunnel"]:
                        ev.append(choice(self, np.asarray(xt[-1:]), state["ymin"]))
            state["len"], state["ymin"] = len(xt), float(np.min(yt))
            state["ntrain"] += 1
            e["fail"] = state["ntrain"] == b["failat"] and b["failall"]
            ev.append(e)
            return super().set_training_values(xt, yt, name)

        def train(self):
            state["fail"] = False
            super().train()
            self._armed()

        def _train(self):
            state["fail"] = False
            super()._train()
            self._armed()

        def _armed(self):
            state["trained"] = True
            state["found"], state["broken"] = [], False
            state["fail"] = state["ntrain"] == b["failat"]
            state["calls"] = 0
            state["rounds"] = 0

        def predict_values(self, x):
            if state["fail"]:
                # every start of a round fails on its first call
                state["calls"] += 1
                if b["failall"] or state["calls"] <= 4:
                    raise ValueError("x0 violates bound constraints")
                state["fail"] = False
            return super().predict_values(x)

    def choice(model, x, ymin):
        from scipy.stats import norm
        r = np.random.RandomState(b["seed"] + 3)
        F = np.array([[l[0] + (l[1] - l[0]) * r.rand() if t["t"] == "F" else float(r.randint(l[0], l[1] + 1)) if t["t"] == "I" else float(r.randint(t["k"])) for t, _, l, _ in spec] for _ in range(24)])
        Q = np.vstack([x, unf(types, F)])
        m = np.ravel(base.predict_values(model, Q)); s = np.sqrt(np.maximum(0, np.ravel(base.predict_variances(model, Q))))
        z = np.where(s > 0, (ymin - m) / np.where(s > 0, s, 1), 0)
        c = {"SBO": m, "UCB": m - 3 * s, "EI": -np.where(s > 0, (ymin - m) * norm.cdf(z) + s * norm.pdf(z), 0)}[b["crit"]]
        e = dict(op="choice", crit=b["crit"], got=fx(c[0]), others=fxs(c[1:]), found=[])
        if not mixed and not state["broken"]:       # values the local searches reached, when they can be seen
            e["found"] = fxs([v for v in state["found"] if np.isfinite(v)])
        return e

    n_start = 8
    sm = Rec(theta0=[0.5], print_global=False)
    xl = uncopied_limits(spec, b["form"])
    r = np.random.RandomState(b["seed"])
    nd = 4 + len(spec)
    X0, seen = [], set()
    while len(X0) < nd:
        p = tuple(float(np.round(l[0] + (l[1] - l[0]) * r.rand(), 3)) if t["t"] == "F" else float(r.randint(l[0], l[1] + 1)) if t["t"] == "I" else float(r.randint(t["k"])) for t, _, l, _ in spec)
        if p not in seen:
            seen.add(p); X0.append(p)
    X0 = np.array(X0)
    opts = dict(n_iter=b["iter"], n_parallel=b["par"], qEI=b["qei"], criterion=b["crit"], xlimits=xl, n_start=n_start, n_max_optim=b["maxopt"], surrogate=sm, enable_tunneling=b["tunnel"])
    if not cont or b["form"] == 2:
        opts["xtypes"] = [s[1] for s in spec]
    if b["rs"] == "int":
        opts["random_state"] = b["seed"]
    elif b["rs"] == "obj":
        opts["random_state"] = np.random.RandomState(b["seed"])
    mixed = "xtypes" in opts
    if b["xdoe"]:
        opts["xdoe"] = X0.copy()
        if b["ydoe"]:
            opts["ydoe"] = np.array([[f(p)] for p in X0])
            ev.append(dict(op="given", x=fxm(unf(types, X0)), y=fxs(opts["ydoe"])))
    else:
        opts["n_doe"] = nd
    if b["form"] == 3:
        class Own(Evaluator):
            def run(self, fn, x):
                return fn(np.array(x))
        opts["evaluator"] = Own()
    keep = {k: (copy.deepcopy(v) if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in opts.items()}
    np.random.seed(b["seed"])
    ego = EGO(**opts)
    import smt.applications.ego as mod
    real = getattr(mod, "minimize", None)

    def watched(*a, **k):
        try:
            r = real(*a, **k)
        except BaseException:
            state["broken"] = True
            raise
        if r["success"]:
            state["found"].append(float(np.ravel(r["fun"])[0]))
        return r
    if real is not None:
        mod.minimize = watched
    try:
        with Quiet():
            x_opt, y_opt, ind, xd, yd = ego.optimize(fun=fun)
    finally:
        if real is not None:
            mod.minimize = real
    unchanged = all(repr(opts[k]) == repr(v) if isinstance(v, np.ndarray) and v.dtype == object else same(opts[k], v)
                    for k, v in keep.items() if k not in ("surrogate", "random_state", "evaluator"))
    unchanged = unchanged and all(ego.options[k] is opts[k] or same(ego.options[k], opts[k]) for k in opts)
    ev.append(dict(op="end", xopt=fxs(x_opt), yopt=fx(np.ravel(y_opt)[0]), ind=int(ind) + 1, xdata=fxm(xd), ydata=fxs(yd), same=bool(unchanged)))
    if part == "C17":
        ev += acquisition(ego, b, spec, types, xd, yd, mixed)
    return ev


def acquisition(ego, b, spec, types, xd, yd, mixed):
    """the criteria at training points, near them and elsewhere, one by one and in a batch"""
    from scipy.stats import norm
    ev = []
    r = np.random.RandomState(b["seed"] + 1)
    cols = []
    for t, _, l, _ in spec:
        cols += [(0.0, 1.0)] * t["k"] if t["t"] == "E" else [(l[0], l[1])]
    lo, hi = np.array([c[0] for c in cols]), np.array([c[1] for c in cols])
    P = lo + (hi - lo) * r.rand(8, len(cols))
    P = np.vstack([P, xd[:2], xd[-1:], xd[:1] + 1e-4 * (hi - lo)])
    P = np.clip(P, lo, hi)
    fmin = float(np.min(yd))
    with Quiet():
        mean = np.ravel(ego.gpr.predict_values(P)); var = np.ravel(ego.gpr.predict_variances(P))
        many = {}
        for what, f in (("EI", lambda x: ego.EI(x, yd)), ("SBO", ego.SBO), ("UCB", ego.UCB)):
            many[what] = [fx(v) for v in np.ravel(f(P))]
            single = [fx(float(np.ravel(f(P[i:i + 1]))[0])) for i in range(len(P))]
            ev.append(dict(op="batch", what=what, many=many[what], single=single, distinct=len({r.tobytes() for r in np.asarray(xd)}) == len(xd)))
        tun = [fx(float(np.ravel(ego.EI(P[i:i + 1], yd, enable_tunneling=True, x_data=xd))[0])) for i in range(len(P))]
    for i in range(len(P)):
        sd = float(np.sqrt(max(var[i], 0)))
        z = (fmin - mean[i]) / sd if sd > 0 else 0.0
        ev.append(dict(op="acq", mean=fx(mean[i]), sd=fx(sd), fmin=fx(fmin), cdf=fx(norm.cdf(z)), pdf=fx(norm.pdf(z)), ei=many["EI"][i], sbo=many["SBO"][i], lcb=many["UCB"][i], tun=tun[i]))
    return ev
