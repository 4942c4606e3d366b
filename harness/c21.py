"""C21: multi-fidelity kriging (spec/Mfk.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo


def level_data(i, v, c, nlow=2):
    """data of low level i (0, 1) or the top (2), version v; nested: 2 < 1 < 0 for a version"""
    nx = c["nx"]
    base = zoo.doe((7 + 3 * nx) * 4, nx, 50 + c["seed"])
    n = {0: len(base), 1: len(base) // 2, 2: len(base) // 4}[i]
    n -= {1: 0, 2: 0, 3: 1}[v]
    X = base[:n].copy() if c["seed"] % 2 else base[::4 >> (2 - i) if i else 1][:n].copy()
    Y = zoo.f_smooth(X)[0]
    if i < 2:
        Y = zoo.low_fi(Y, X, 2 - i)
    return X, (1 + 0.3 * (v - 1)) * Y + 0.2 * (v == 2) * X[:, :1]


def make(c, **over):
    import smt.applications as A
    th = c["theta"] / 100.0
    kw = dict(print_global=False, corr=c["corr"], poly=c["poly"], rho_regr=c["rho"], theta0=[th], theta_bounds=[1e-2 if c["kind"] == "MFK" else 0.15, 20.0], nugget=1e-12)
    if c["kind"] != "MFK":
        kw["n_comp"] = c["nc"]
    if c["pin"]:
        kw["theta_bounds"] = [th * (1 - 1e-7), th * (1 + 1e-7)]
    kw.update(over)
    return getattr(A, c["kind"])(**kw)


def levels(low, top):
    out = []
    for i in (0, 1):
        if low[i] == 0:
            break
        out.append(low[i])
    return out + [top]


def startings(c, lv):
    """the documented forms of theta0: one value, one per input, one per level, one per level and input"""
    th, nx, n = c["theta"] / 100.0, c["nx"] if c["kind"] == "MFK" else c["nc"], len(lv)
    return [[th], [th] * nx, [th] * n, np.full((n, nx), th)][(c["seed"] // 2) % 4]


def fresh(c, lv):
    m = make(c, theta0=startings(c, lv))
    for i, v in enumerate(lv[:-1]):
        m.set_training_values(*level_data(i, v, c), name=i)
    m.set_training_values(*level_data(2, lv[-1], c))
    np.random.seed(5)
    with Quiet():
        m.train()
    return m


# ------------------------------------------------------------ reference co-kriging
def corr(name, th, D):
    A = np.abs(D)
    if name == "squar_exp":
        return np.exp(-np.sum(th * D ** 2, axis=-1))
    if name == "abs_exp":
        return np.exp(-np.sum(th * A, axis=-1))
    if name == "matern52":
        s = np.sqrt(5) * th * A
        return np.prod((1 + s + s ** 2 / 3) * np.exp(-s), axis=-1)
    s = np.sqrt(3) * th * A
    return np.prod((1 + s) * np.exp(-s), axis=-1)


def basis(kind, X):
    n = len(X)
    if kind == "constant":
        return np.ones((n, 1))
    if kind == "linear":
        return np.c_[np.ones(n), X]
    return np.c_[np.ones(n), X, np.array([X[:, k] * X[:, j] for k in range(X.shape[1]) for j in range(k, X.shape[1])]).T]


def cokriging(c, data, P, own=1.0):
    th = c["theta"] / 100.0
    XX = np.vstack([d[0] for d in data]); YY = np.vstack([d[1] for d in data])
    xo, xs = XX.mean(0), XX.std(0, ddof=1)
    xs[xs == 0] = 1
    yo, ys = YY.mean(), YY.std(ddof=1)
    Q = (P - xo) / xs
    mean, var = [], []
    chain = []          # one predictor (mean of level k at normalised points) per level
    for k, (X, Y) in enumerate(data):
        Z = (X - xo) / xs; y = (Y - yo) / ys
        R = corr(c["corr"], th, Z[:, None] - Z[None]) + 1e-12 * np.eye(len(Z))
        below = chain[-1] if chain else None
        def F(T, below=below):
            f = basis(c["poly"], T)
            return np.hstack([basis(c["rho"], T) * below(T), f]) if below else f
        Fx = F(Z); Ri = np.linalg.inv(R)
        V = np.linalg.inv(Fx.T @ Ri @ Fx); b = V @ (Fx.T @ Ri @ y)
        g = Ri @ (y - Fx @ b)
        dof = len(Z) - Fx.shape[1]
        s2 = ((y - Fx @ b).T @ g)[0, 0] / dof
        chain.append(lambda T, F=F, b=b, g=g, Z=Z: F(T) @ b + corr(c["corr"], th, T[:, None] - Z[None]) @ g)
        r = corr(c["corr"], th, Q[:, None] - Z[None])
        u = F(Q) - r @ Ri @ Fx
        part = s2 * ((own if below else 1.0) * (1 - np.sum(r @ Ri * r, axis=1)) + np.sum(u @ V * u, axis=1))
        if below:
            q = basis(c["rho"], Q).shape[1]
            G = basis(c["rho"], Q)
            part = part + np.sum(G @ (s2 * V[:q, :q] + b[:q] @ b[:q].T) * G, axis=1) * var[-1]
        mean.append(chain[-1](Q)); var.append(part)
    cond = np.linalg.cond(R)
    return mean[-1] * ys + yo, var[-1] * ys ** 2, cond


def play(b):
    c = b["c"]
    nx = c["nx"]
    m = make(c)
    low, top = {0: 0, 1: 0}, 0
    model = None
    refs = {}
    ev = []
    keep = []
    r = np.random.RandomState(c["seed"])
    P = np.vstack([zoo.points(5, nx, c["seed"] + 1), zoo.points(2, nx, c["seed"] + 2, margin=0.3)])
    sc = 1.5
    for o in b["ops"]:
        if o["op"] in ("low", "top"):
            X, Y = level_data(o["i"] if o["op"] == "low" else 2, o["v"], c)
            keep.append((X, X.copy(), Y, Y.copy()))
            if o["op"] == "low":
                m.set_training_values(X, Y, name=o["i"]); low[o["i"]] = o["v"]
            else:
                m.set_training_values(X, Y); top = o["v"]
            ev.append(dict(op=o["op"], i=o["i"], v=o["v"]))
        elif o["op"] == "train":
            np.random.seed(5)
            with Quiet():
                m.train()
            model = levels(low, top)
            ev.append(dict(op="train", res="ok"))
            ev += after_training(m, c, model, P, sc)
        elif model is not None:
            with Quiet():
                y, v = m.predict_values(P), m.predict_variances(P)
            for lv in (model, levels(low, top)):
                if tuple(lv) not in refs:
                    f = fresh(c, lv)
                    with Quiet():
                        refs[tuple(lv)] = dict(levels=lv, y=fxs(f.predict_values(P), sc), v=fxs(f.predict_variances(P), sc))
            ev.append(dict(op="query", y=fxs(y, sc), v=fxs(v, sc), slack=20, refs=list(refs.values())))
    ev.append(dict(op="equal", ok=all(same(a, k) for A in keep for a, k in ((A[0], A[1]), (A[2], A[3]))), what="caller-data-changed"))
    return ev


def after_training(m, c, lv, P, sc):
    nx = c["nx"]
    ev = []
    data = [level_data(i, v, c) for i, v in enumerate(lv[:-1])] + [level_data(2, lv[-1], c)]
    with Quiet():
        y = np.asarray(m.predict_values(P)); v = np.asarray(m.predict_variances(P))
        mse, rho2 = m.predict_variances_all_levels(P)
    ev.append(dict(op="shape", mse=shape(mse), v=shape(v), y=shape(y), n=len(P)))
    for i in range(len(P)):
        ev.append(dict(op="point", mse=fxs(mse[i], sc), v=fx(np.ravel(v)[i], sc), rho2=[fx(a[i]) if a[i] < 15 and mse[i].max() < 15 else -1 for a in rho2]))
    nested = len(set(lv)) == 1
    for k, (X, Y) in enumerate(data, 1):
        pts = X[[0, len(X) // 2, len(X) - 1]]
        h = Y[[0, len(X) // 2, len(X) - 1]]
        with Quiet():
            mu = m._predict_intermediate_values(pts, k) if hasattr(m, "_predict_intermediate_values") else None
            yy = m.predict_values(pts)
            ms = m.predict_variances_all_levels(pts)[0]
        for i in range(3):
            if nested or k == 1:
                ev.append(dict(op="own", lvl=k, mu=fxs(mu[i], sc) if mu is not None else [], y=fx(yy[i, 0], sc), h=fx(h[i, 0], sc), mse=fx(ms[i, k - 1], sc)))
    if c["pin"] and c["kind"] == "MFK":
        ref, refv, cond = cokriging(c, data, P)
        if cond < 1e9:
            ev.append(dict(op="ref", y=fxs(y, sc), ref=fxs(ref, sc), v=fxs(v, sc), refv=fxs(refv, sc), tol=500))
    if c["pin"] and len(lv) == 1:
        import smt.surrogate_models as S
        kind = {"MFK": "KRG", "MFKPLS": "KPLS", "MFKPLSK": "KPLSK"}[c["kind"]]
        th = c["theta"] / 100.0
        kw = dict(print_global=False, corr=c["corr"], poly=c["poly"], theta0=[th], theta_bounds=[th * (1 - 1e-7), th * (1 + 1e-7)], nugget=1e-12)
        if kind != "KRG":
            kw["n_comp"] = c["nc"]
        if kind != "KPLSK":
            s = getattr(S, kind)(**kw)
            X, Y = data[0]
            s.set_training_values(X, Y)
            with Quiet():
                s.train()
                n = len(X); p = {"constant": 1, "linear": nx + 1}[c["poly"]]
                ev.append(dict(op="single", y=fxs(y, sc), ref=fxs(s.predict_values(P), sc), v=fxs(v, sc), refv=fxs(np.asarray(s.predict_variances(P)) * n / (n - p), sc)))
    if c["corr"] == "squar_exp" and (c["rho"] == "constant"):
        for k in range(nx):
            w = zoo.limits(nx)[k]; h = 1e-4 * (w[1] - w[0]); E = np.zeros(nx); E[k] = h
            with Quiet():
                d = m.predict_derivatives(P, k); q = (m.predict_values(P + E) - m.predict_values(P - E)) / (2 * h)
            ev.append(dict(op="slope", d=fxs(d, 10.0), q=fxs(q, 10.0)))
    return ev


def affine(c):
    """top data an exact combination of the low data: the levels are chained everywhere"""
    nx = c["nx"]
    r = np.random.RandomState(c["seed"])
    X, Y = level_data(0, 1, c)
    XH = X[::2]
    a, b0 = 0.5 + r.rand(), r.rand()
    lin = (r.rand(nx) - 0.5) * 0.3 if c["rho"] != "constant" and c["poly"] == "linear" else np.zeros(nx)
    YH = (a + XH @ lin).reshape(-1, 1) * Y[::2] + b0
    YH = YH + 1e-6 * np.sin(40 * XH[:, :1])
    m = make(c)
    m.set_training_values(X, Y, name=0); m.set_training_values(XH, YH)
    np.random.seed(5)
    with Quiet():
        m.train()
    s = make(dict(c, rho="constant"))
    s.set_training_values(X, Y, name=0); s.set_training_values(XH, YH)
    P = zoo.points(6, nx, c["seed"] + 7)
    with Quiet():
        y = m.predict_values(P)
        l = m._predict_intermediate_values(P, 1) if hasattr(m, "_predict_intermediate_values") else None
    if l is None:
        return []
    rho = a + P @ lin
    return [dict(op="affine", y=fx(y[i, 0]), rho=fx(rho[i]), below=fx(l[i, 0]), delta=fx(b0), tol=300) for i in range(len(P))]


def run(ctx):
    ctx.model_check("Mfk", {"NLow": 2, "Vers": tlaset([1, 2, 3] if ctx.thorough else [1, 2])}, ["TopIsLast", "NoGap"], ["OnlyTrainChanges"])
    bs = ctx.generate("MfkGen", {"MaxOps": ctx.n(10, 16)}, num=ctx.n(110, 420), depth=ctx.n(14, 20))
    jobs = []
    for i, b in enumerate(bs):
        c = b["c"]
        if c["kind"] != "MFK":
            c["theta"] = max(60, c["theta"])        # projected inputs: keep the correlation matrix regular
        if c["rho"] == "quadratic" and c["nx"] > 2:
            c["rho"] = "linear"
        key = "%s-%s-%s-%s%s" % (c["kind"], c["corr"], c["poly"], c["rho"], "-pin" if c["pin"] else "")
        jobs.append(("%s-x%d-%d" % (key, c["nx"], i), dict(), (lambda b=b: play(b)), dict(key=key, limit=200)))
        if i % 2 == 0:
            jobs.append(("affine-%s-x%d-%d" % (key, c["nx"], i), dict(), (lambda c=c: affine(c)), dict(key="affine-" + key, limit=120)))
    ctx.validate("MfkTrace", parallel(jobs))
