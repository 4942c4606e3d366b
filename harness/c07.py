"""C07: predicted derivatives are derivatives of predicted values (spec/Derivs.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo


def place(q, D, nx, xl):
    r = np.random.RandomState(q["seed"])
    lo, hi = xl[:, 0], xl[:, 1]
    w = hi - lo
    p = lo + w * (0.05 + 0.9 * r.rand(nx))
    k = q["k"] % nx
    wh = q["where"]
    if wh == "edge":
        p[k] = lo[k] + w[k] * 0.01 if r.rand() < 0.5 else hi[k] - 0.01 * w[k]
    elif wh == "outside":
        p = lo + w * (0.5 + (0.6 + 0.3 * r.rand(nx)) * r.choice([-1, 1], nx))
    elif wh == "outside1":
        p[k] = hi[k] + w[k] * 0.2 * (1 + r.rand()) if r.rand() < 0.5 else lo[k] - w[k] * 0.2 * (1 + r.rand())
    elif wh == "far":
        p = lo + w * (0.5 + (2.0 + r.rand(nx)) * r.choice([-1, 1], nx))
    elif wh == "data":
        p = D.X[r.randint(len(D.X))].copy()
    elif wh == "shared":
        p[k] = D.X[r.randint(len(D.X)), k]
    elif wh == "between":
        i, j = r.choice(len(D.X), 2, replace=False)
        p = 0.5 * (D.X[i] + D.X[j])
    return p


def slopes(f, df, P, k, h, S, ny):
    """events for the points P, batch of `df` answers and quotients of `f`"""
    n = len(P)
    res, d = attempt(df, P, k)
    out = []
    quot = []
    E = np.zeros(P.shape[1]); E[k] = h
    with Quiet():
        f0 = np.asarray(f(P.copy()), dtype=float).reshape(n, -1)
        for m in (-2, -1, 1, 2):
            quot.append((np.asarray(f(P + m * E), dtype=float).reshape(n, -1) - f0) / h)
    d = np.asarray(d, dtype=float) if res == "ok" else None
    for i in range(n):
        e = dict(res=res, d=[], q=[])
        if res == "ok":
            e["d"] = fxs(d[i], S) if d.ndim == 2 and i < d.shape[0] else []
            e["q"] = [[fx(g[i, j], S) for g in quot] for j in range(f0.shape[1])]
        out.append(e)
    return out


def play(sm, D, nx, ny, walk, xl, what="value"):
    Y = D.Y
    sc = max(1e-6, float(np.ptp(Y)))
    w = xl[:, 1] - xl[:, 0]
    ev = []
    groups = {}
    for q in walk:
        groups.setdefault(q["batch"], []).append(q)
    for b, qs in groups.items():
        if b == 3:
            batches = [[q] for q in qs]
        else:
            batches = [qs]
        for qs in batches:
            P = np.array([place(q, D, nx, xl) for q in qs])
            for k in range(nx):
                es = slopes(sm.predict_values, sm.predict_derivatives, P, k, 2e-4 * w[k], 3 * sc / w[k], ny)
                for e, q in zip(es, qs):
                    e["op"] = "point"; e["what"] = q["where"]
                ev += es
    return ev


def build_and_play(c, cap, nx, ny, walk, seed, scale=1.0, xl=None, **over):
    D = zoo.Data(c, zoo.npoints(c, nx), nx, ny, seed, scale=scale)
    sm = zoo.build(c, nx, **over)
    with Quiet():
        D.load(sm, cap)
        sm.train()
    return play(sm, D, nx, ny, walk, zoo.limits(nx))


def run(ctx):
    ctx.model_check("Derivs", {"CoefMax": ctx.n(1, 2), "Steps": "{1, 2}"}, ["Exact", "Separates"])
    recs = configs(ctx, lambda c, p: p["der"])
    walks = ctx.generate("DerivsGen", {"Depth": ctx.n(14, 40)}, num=400, depth=45)
    jobs, w = [], 0

    def add(c, cap, nx, ny, tol, tag="", **over):
        nonlocal w
        wk = walks[w % len(walks)]; w += 1
        key = "%s%s/x%dy%d" % (zoo.name_of(c), tag, nx, ny)
        jobs.append((key, dict(ny=ny, tol=tol), (lambda w=w: build_and_play(c, cap, nx, ny, wk, 3 + w % 7, **over)), dict(key=key, limit=120)))
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        tol = 300
        for nx, ny in [(2, 1), (3, 1), (2, 2), (1, 1)] + ([(4, 1), (3, 3)] if c["kind"] in ("LS", "QP", "IDW", "RBF", "KRG", "KPLS", "KPLSK", "GEKPLS", "GENN") else []):
            if (ny > 1 and not cap["my"]) or (nx == 1 and not cap["one"]):
                continue
            if c["kind"] in ("RMTB", "RMTC"):
                if nx > 2 and not ctx.thorough:
                    continue
                add(c, cap, nx, ny, tol, extrapolate=True, tag="/ext")
            for rep in range(ctx.n(1, 3)):
                add(c, cap, nx, ny, tol)
        if c["kind"] in ("KRG", "KPLS", "GEKPLS", "IDW", "RBF", "QP", "LS", "GENN"):
            add(c, cap, 2, 1, tol, tag="/big", scale=1e5)
    ctx.validate("DerivsTrace", parallel(jobs))
