"""C24: line searches (spec/LineSearch.tla)."""
from harness.core import *
from harness.scen import parallel

EPS = 2.3e-16


def functions(q):
    """(func, grad, centre): differentiable, bounded below along every ray unless stated"""
    n, r = q["n"], np.random.RandomState(q["seed"])
    c = r.uniform(-2, 2, n)
    w = 10.0 ** r.uniform(-1, 1, n)
    f = q["fun"]
    if f == "quad" or f == "illquad":
        if f == "illquad":
            w = 10.0 ** r.uniform(-3, 3, n)
        return lambda x: float(np.sum(w * (x - c) ** 2)) + 1.0, lambda x: 2 * w * (x - c), c
    if f == "quartic":
        return lambda x: float(np.sum(w * (x - c) ** 4)) - 3.0, lambda x: 4 * w * (x - c) ** 3, c
    if f == "rosen":
        def fu(x):
            z = x - c
            return float(np.sum((1 - z) ** 2) + sum(10 * (z[i + 1] - z[i] ** 2) ** 2 for i in range(n - 1)))

        def gr(x):
            z = x - c
            g = -2 * (1 - z)
            for i in range(n - 1):
                t = z[i + 1] - z[i] ** 2
                g[i] += -40 * z[i] * t
                g[i + 1] += 20 * t
            return g
        return fu, gr, c + 1
    if f == "logcosh":
        return lambda x: float(np.sum(w * np.logaddexp(x - c, c - x))), lambda x: w * np.tanh(x - c), c
    if f == "bumpy":
        k = r.uniform(2, 9, n)
        return lambda x: float(np.sum(0.5 * (x - c) ** 2 + 0.8 * np.cos(k * (x - c)))), lambda x: (x - c) - 0.8 * k * np.sin(k * (x - c)), c
    if f == "wall":          # gentle slope before a very steep wall
        def fu(x):
            z = x - c
            return float(np.sum(-0.3 * z + np.where(z > 0, 1e5 * z ** 2, 0.0) + 1e-4 * z ** 2))

        def gr(x):
            z = x - c
            return -0.3 + np.where(z > 0, 2e5 * z, 0.0) + 2e-4 * z
        return fu, gr, c
    if f == "linwall":       # long linear descent, then a smooth wall
        def fu(x):
            z = x - c
            return float(np.sum(-z + np.where(z > 5, (z - 5) ** 3, 0.0) + np.where(z < -60, -(z + 60) ** 3 / 3, 0.0)))

        def gr(x):
            z = x - c
            return -1 + np.where(z > 5, 3 * (z - 5) ** 2, 0.0) + np.where(z < -60, -(z + 60) ** 2, 0.0)
        return fu, gr, c
    if f == "flat":          # tiny slopes
        return lambda x: 1e-6 * float(np.sum(w * (x - c) ** 2)), lambda x: 2e-6 * w * (x - c), c
    if f == "cubicish":
        return (lambda x: float(np.sum(np.abs(x - c) ** 3 / 3 + 0.5 * (x - c))), lambda x: (x - c) * np.abs(x - c) + 0.5, c)
    if f == "exp":
        return (lambda x: float(np.sum(np.exp(np.minimum(x - c, 200)) + np.exp(-0.2 * np.maximum(x - c, -900)))),
                lambda x: np.exp(np.minimum(x - c, 200)) - 0.2 * np.exp(-0.2 * np.maximum(x - c, -900)), c)
    if f == "hyper":         # linear growth: slopes saturate
        return lambda x: float(np.sum(w * np.sqrt(1e-4 + (x - c) ** 2))), lambda x: w * (x - c) / np.sqrt(1e-4 + (x - c) ** 2), c


CLASSES = dict(null="NullLineSearch", backtracking="BacktrackingLineSearch", bracketed="BracketedLineSearch",
               quadratic="QuadraticLineSearch", cubic="CubicLineSearch")


def play(walk):
    from smt.utils.line_search import get_line_search_class
    ev = []
    for q in walk:
        func, grad, c = functions(q)
        r = np.random.RandomState(q["seed"] + 5)
        n = q["n"]
        x = c + r.uniform(-1, 1, n) * dict(far=20.0, mid=2.0, near=1e-3)[q["pos"]]
        g = grad(x)
        d = -g
        if q["dir"] == "unit":
            d = d / max(np.linalg.norm(d), 1e-300)
        elif q["dir"] == "scaled":
            d = d * 10.0 ** r.uniform(-2, 2)
        elif q["dir"] == "other":
            d = r.uniform(-1, 1, n)
            d = -d if d.dot(g) > 0 else d
        gn = np.linalg.norm(g) * np.linalg.norm(d)
        slope = float(g.dot(d))
        if not (slope < -1e-3 * gn) or gn < 1e-13:
            continue
        a0 = 1.0 if q["default"] else 10.0 ** q["a0"]
        if np.linalg.norm(d) * a0 > 1e3:         # keep the objective's values finite over the range
            d = d * (1e3 / np.linalg.norm(d) / a0)
            slope = float(g.dot(d))
        k1, u2 = (10000, 900) if q["default"] else (q["k1"], q["u2"])
        kw = {} if q["default"] else dict(u1=1.0 / k1, u2=u2 / 1000.0)
        kx, kd = x.copy(), d.copy()
        cls = get_line_search_class(q["alg"])
        count = [0]

        def fun(z):
            count[0] += 1
            if count[0] > 20000:
                raise RuntimeError("runaway")
            return func(z)
        res, y = attempt(lambda: cls(x, d, fun, grad, **kw)(*(() if q["default"] else (a0,))))
        e = dict(op="Search", alg=q["alg"], fun=q["fun"], res=res, k1=k1, u2=u2 * 1000, kept=same(x, kx) and same(d, kd),
                 **{"class": cls.__name__ == CLASSES[q["alg"]] or not hasattr(__import__("smt.utils.line_search").utils.line_search, CLASSES[q["alg"]])})
        f0 = func(x)
        unit = a0 * abs(slope)

        def scaled(a, S=None):
            S = max(1.0, a / a0 / 500.0) if S is None else S
            v, z = func(x + a * d), grad(x + a * d)
            # rounding of the objective, the step and the point
            tol = 16 * EPS * (abs(f0) + abs(v) + np.sum(np.abs(z) * (np.abs(x) + a * np.abs(d)))) / unit / S
            far = np.abs(z).dot(np.abs(d))
            td = 64 * EPS * far / abs(slope) + 1e-9 * (1 + abs(z.dot(d) / slope))
            return dict(A=fx(a / a0 / S), F=fx((v - f0) / unit / S), D=fx(z.dot(d) / abs(slope)), tolF=fx(tol), tolD=fx(td))
        if res == "ok":
            y = np.asarray(y if y is not None else np.full(n, np.nan))
            ok = y.dtype != object and not np.iscomplexobj(y) and y.shape == (n,) and bool(np.isfinite(y.astype(float)).all())
            e["finite"] = ok
            e["off"] = 0
            e.update(A=0, F=0, D=0, tolF=0, tolD=0)
            if ok:
                a = float((y - x).dot(d) / d.dot(d))
                rnd = EPS * 8 * np.linalg.norm(x) / np.linalg.norm(d)
                e["off"] = fx(np.linalg.norm(y - x - a * d) / (1e-7 * abs(a) * np.linalg.norm(d) + 8 * EPS * (np.linalg.norm(x) + np.linalg.norm(y)) + 1e-300) / 1e5)
                e.update(scaled(a))
                e["tolF"] = min(SAT, e["tolF"] + fx(rnd / a0))
                # the curvature at a point known only to rounding
                h = max(rnd, 1e-12 * a0)
                e["tolD"] = min(SAT, e["tolD"] + fx(abs((grad(x + (a + h) * d) - grad(x + (a - h) * d)).dot(d)) / abs(slope)))
            e["halves"] = [fx((func(x + a0 * 0.5 ** k * d) - f0) / unit * 2.0 ** k) for k in range(14)] if q["alg"] == "backtracking" else []
            e["far"] = scaled(a0 * 1.5 ** 19) if q["alg"] in ("bracketed", "quadratic", "cubic") else {"A": 0}
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("LineSearch", {"N": 4, "V": ctx.n(2, 3)}, ["LowDecreases", "DownhillInside", "Result", "OutOnlyDescending"], ["Terminates"])
    walks = ctx.generate("LineSearchGen", {"Depth": 20}, num=ctx.n(160, 3000), depth=25)
    jobs = [("walk-%d" % i, dict(k=i), (lambda w=w: play(w)), dict(key="walk", limit=60)) for i, w in enumerate(walks)]
    ctx.validate("LineSearchTrace", parallel(jobs))
