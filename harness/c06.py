"""C06: polynomial regression and trends (spec/Regress.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo


def evalp(polys, X):
    return np.array([[sum(t["c"] * np.prod([x[i - 1] for i in t["b"]]) for t in p) for p in polys] for x in X], dtype=float)


def grid(n, nx, seed, deg):
    """n distinct integer points of [-3,3]^nx on which the basis of degree deg has full rank"""
    r = np.random.RandomState(seed)
    L = 3 if nx > 1 else max(3, n)
    for _ in range(200):
        X = r.randint(-L, L + 1, size=(4 * n, nx))
        X = np.unique(X, axis=0)
        X = X[r.permutation(len(X))[:n]]
        if len(X) < n:
            continue
        B = [np.ones(n)] + ([X[:, i] for i in range(nx)] if deg >= 1 else []) + ([X[:, i] * X[:, j] for i in range(nx) for j in range(i, nx)] if deg >= 2 else [])
        if np.linalg.cond(np.array(B, dtype=float)) < 1e4:
            return X
    raise MachineryError("no rich grid")


def size(deg, nx):
    return {0: 1, 1: 1 + nx, 2: (nx + 1) * (nx + 2) // 2}[deg]


def play(c, deg, probs, tol, least):
    ev = []
    sm = zoo.build(c, probs[0]["n"])
    nx = probs[0]["n"]
    for k, p in enumerate(probs):
        ny = p["ny"]
        n = max(size(deg, nx) + p["extra"], least)
        X = grid(n, nx, p["seed"], deg)
        Y = evalp(p["polys"], X)
        res, _ = attempt(lambda: (sm.set_training_values(X.astype(float), Y), sm.train()))
        ev.append(dict(op="train", res=res, x=X.tolist(), polys=p["polys"]))
        r = np.random.RandomState(p["seed"] + 1)
        for A, unit in ((X, 10 ** 6), (r.randint(-4, 5, size=(7, nx)), 10 ** 6), (r.randint(-40, 41, size=(5, nx)), 10 ** 4), (r.randint(-4, 5, size=(1, nx)), 10 ** 6)):
            if c["kind"] not in ("LS", "QP") and unit != 10 ** 6:
                A = A // 4
            if unit == 10 ** 6 and nx == 1 and deg == 2:
                A = np.clip(A, -9, 9)
            res, v = attempt(sm.predict_values, A.astype(float))
            ev.append(dict(op="ask", res=res, x=A.tolist(), unit=unit, rows=fxm(v, 1e6 / unit) if res == "ok" else []))
        slopes = c["kind"] in ("LS", "QP", "RBF") or (c["corr"] == "squar_exp" and c["poly"] != "quadratic")
        if slopes:
            for kx in range(nx):
                A = r.randint(-4, 5, size=(4, nx))
                res, v = attempt(sm.predict_derivatives, A.astype(float), kx)
                ev.append(dict(op="slope", res=res, x=A.tolist(), k=kx + 1, unit=10 ** 6, rows=fxm(v) if res == "ok" else []))
        if c["kind"] == "QP":
            m = max(1, size(deg, nx) - 1 - p["seed"] % 3)
            s2 = zoo.build(c, nx)
            F = r.randint(-3, 4, size=(m, nx)).astype(float)
            def short():
                s2.set_training_values(F, evalp(p["polys"], F)); s2.train()
            ev.append(dict(op="few", res=attempt(short)[0], n=m))
        if c["kind"] in ("LS", "QP"):
            Z = np.array([np.sin(3 * X[:, 0] + j) + 0.3 * X[:, -1] ** 3 * (j + 1) + r.randn(n) for j in range(ny)]).T
            res, _ = attempt(lambda: (sm.set_training_values(X.astype(float), Z), sm.train()))
            ev.append(dict(op="train", res=res, x=X.tolist(), polys=[]))
            res, v = attempt(sm.predict_values, X.astype(float))
            s = max(1.0, float(np.max(np.abs(Z))))
            ev.append(dict(op="resid", res=res, r=[fxs(Z[:, j] - v[:, j], s) for j in range(ny)] if res == "ok" else []))
    return ev


def run(ctx):
    ctx.model_check("Regress", {"Line": tlaset(range(ctx.n(4, 5))), "Vals": tlaset(range(ctx.n(3, 4)))}, ["ExactOnLines", "Optimal"])

    def problems(maxdeg, dims, outs, extra, num):
        return ctx.generate("RegressGen", {"Line": "{0}", "Vals": "{0}", "MaxDeg": maxdeg, "Dims": tlaset(dims), "Outs": tlaset(outs), "Extra": tlaset(extra)},
                            num=num, depth=3, spec="GSpec")
    jobs = []
    m = ctx.n(1, 5)
    fams = [(dict(kind="LS"), 1, [1, 2, 3, 4], [1, 2, 3], [0, 1, 4, 9], 60 * m, 60),
            (dict(kind="QP"), 2, [1, 2, 3, 4], [1, 2, 3], [0, 1, 4, 9], 60 * m, 60)]
    for deg, poly in enumerate(("constant", "linear", "quadratic")):
        for kind, corrs, ncs in (("KRG", ["squar_exp", "abs_exp", "matern52", "matern32"], [0]), ("KPLS", ["squar_exp", "abs_exp"], [1, 2]), ("KPLSK", ["squar_exp"], [1, 2])):
            for corr in corrs:
                for nc in ncs:
                    fams.append((dict(kind=kind, corr=corr, poly=poly, nc=nc), deg, [2, 3] if nc > 1 else [1, 2, 3], [1, 2], [5, 7], 8 * m, 400))
        for corr in ("squar_exp", "matern52"):
            fams.append((dict(kind="KRG", corr=corr, poly=poly, v="tnc"), deg, [1, 2, 3], [1], [5, 7], 8 * m, 400))
    for deg, poly in ((0, "0"), (1, "1")):
        fams.append((dict(kind="RBF", poly=poly), deg, [1, 2, 3], [1, 2], [3, 6], 30 * m, 200))
    for c, deg, dims, outs, extra, num, tol in fams:
        for k in ("corr", "poly", "nc", "v"):
            c.setdefault(k, {"nc": 0, "v": "cobyla" if c["kind"] != "RBF" else "d1.5"}.get(k, "-"))
        P = problems(deg, dims, outs, extra, num)
        for nx in dims:
            Q = [p for p in P if p["n"] == nx]
            for i in range(0, len(Q), 3):
                jobs.append(("%s/x%d/%d" % (zoo.name_of(c), nx, i), dict(deg=deg, n=nx, tol=tol),
                             (lambda c=c, deg=deg, q=Q[i:i + 3]: play(c, deg, q, tol, 6 if c["kind"] not in ("LS", "QP") else 0)), dict(key="%s/x%d" % (zoo.name_of(c), nx))))
    ctx.validate("RegressTrace", parallel(jobs))
