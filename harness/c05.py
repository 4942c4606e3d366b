"""C05: interpolation (spec/Interp.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo

SCALES = [1.0, 1e-3, 1.0, 1e4, -2.0]
OFFS = [0.0, 3.0, -50.0]


def off_points(c, D, nx, p, k):
    P = zoo.points(6, nx, 20 + k, margin=2.0)
    near = D.X[k % len(D.X)] + np.array([1e-6, 1e-9, 1e-12, 1e-3])[k % 4]
    return np.vstack([P, near[None], D.X[0][None] + 1e3, 0.5 * (D.X[0] + D.X[1])[None]])


def play(c, cap, nx, ny, walk, seed):
    sm = zoo.build(c, nx)
    ev = []
    D = None
    sc = 1.0
    asked = 0
    for q in walk:
        if q["op"] in ("setdata", "updatey"):
            a, b = SCALES[q["scale"] - 1], OFFS[q["offset"] - 1]
            if c["kind"] in ("RBF",) :
                b = 0.0 if c["poly"] == "-1" else b
            if q["op"] == "setdata":
                n = zoo.npoints(c, nx) + [0, 2, 5, 1][q["set"] - 1]
                D = zoo.Data(c, n, nx, ny, seed + q["set"])
                base = [lv for lv in (D.levels or [])], D.Y, D.dY
            sc = abs(a)
            D.Y = base[1] * a + b * abs(a)
            D.dY = [d * a for d in base[2]]
            if D.levels:
                D.levels = [(X, Y * a + b * abs(a)) for X, Y in base[0]]
                D.levels[-1] = (D.X, D.Y)
            if q["op"] == "setdata":
                sm.training_points.clear()
                res, _ = attempt(D.load, sm, cap)
                ids = {}
                e = dict(op="setdata", x=[ids.setdefault(x.tobytes(), len(ids)) for x in D.X])
            else:
                def up():
                    if D.levels:
                        for i, (X, Y) in enumerate(D.levels[:-1]):
                            sm.update_training_values(Y, name=i)
                    sm.update_training_values(D.Y)
                    if cap["need"]:
                        for k in range(nx):
                            sm.update_training_derivatives(D.dY[k], k)
                res, _ = attempt(up)
                e = dict(op="updatey")
            ref = D.Y.mean(axis=0)
            e.update(res=res, y=fxm(D.Y - ref, sc))
        elif q["op"] == "train":
            res, _ = attempt(sm.train)
            e = dict(op="train", res=res)
            fitref, fitsc, X = ref, sc, D.X
        else:
            n = len(X)
            asked += 1
            if q["op"] == "askoff":
                x = off_points(c, D, nx, c["v"], asked)
                if c["kind"] in ("RMTB", "RMTC"):
                    x = x[:6]
                e = dict(op="off")
            else:
                ids = list(range(n)) if q["op"] == "askall" else list(np.random.RandomState(asked).permutation(n)) if q["op"] == "askperm" else [q["i"] % n]
                x = X[ids]
                e = dict(op="ask", ids=[i + 1 for i in ids])
            res, r = attempt(sm.predict_values, x)
            e.update(res=res, rows=fxm(np.asarray(r) - fitref, fitsc) if res == "ok" and np.ndim(r) == 2 else [])
        ev.append(e)
    return ev


def large(c, nx, ny, seed):
    """more than ten thousand pairs of training points"""
    n = 160
    D = zoo.Data(c, n, nx, ny, seed)
    over = dict(theta_bounds=[8.0, 50.0], theta0=[10.0] * max(1, c["nc"])) if c["kind"] in ("KRG", "KPLS", "KPLSK") else {}
    sm = zoo.build(c, nx, **over)
    sm.set_training_values(D.X, D.Y)
    ev = [dict(op="setdata", res="ok", x=list(range(n)), y=fxm(D.Y - D.Y.mean(axis=0)))]
    res, _ = attempt(sm.train)
    ev.append(dict(op="train", res=res))
    ids = np.random.RandomState(seed).permutation(n)
    for part in (ids, ids[:60], ids[150:]):
        res, r = attempt(sm.predict_values, D.X[part])
        ev.append(dict(op="ask", ids=[int(i) + 1 for i in part], res=res, rows=fxm(np.asarray(r) - D.Y.mean(axis=0)) if res == "ok" and np.ndim(r) == 2 else []))
    return ev


def run(ctx):
    ctx.model_check("Interp", {"Line": tlaset(range(ctx.n(4, 6))), "Vals": tlaset(range(ctx.n(3, 4)))}, ["Interpolates", "Convex"])
    recs = configs(ctx, lambda c, p: p["interp"])
    walks = ctx.generate("InterpGen", {"Depth": ctx.n(16, 40)}, num=300, depth=45)
    jobs, w = [], 0
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        for rep in range(ctx.n(1, 3)):
            for nx, ny in [(2, 1), (3, 1), (2, 2), (1, 1)] + ([(4, 1), (3, 3)] if c["kind"] in ("IDW", "RBF", "KPLS", "KPLSK") else []):
                if (ny > 1 and not cap["my"]) or (nx == 1 and not cap["one"]):
                    continue
                wk = walks[w % len(walks)]; w += 1
                tol = 1500 if c["kind"].startswith("MFK") else 100
                jobs.append(("%s/x%dy%d/w%d" % (zoo.name_of(c), nx, ny, w), dict(tol=tol, convex=c["kind"] == "IDW"),
                             (lambda c=c, cap=cap, nx=nx, ny=ny, wk=wk, w=w: play(c, cap, nx, ny, wk, 7 * (w % 9))),
                             dict(key="%s/x%dy%d" % (zoo.name_of(c), nx, ny), limit=120)))
    for r in recs:
        c = r["cfg"]
        if c["kind"] in ("KRG", "KPLS", "KPLSK", "IDW") and c["poly"] in ("constant", "-"):
            nx = 2 + w % 2; w += 1
            jobs.append(("%s/large/x%d" % (zoo.name_of(c), nx), dict(tol=300, convex=c["kind"] == "IDW"), lambda c=c, nx=nx, w=w: large(c, nx, 1, w % 9), dict(limit=200)))
    # large and fractional powers of the inverse distance
    for p in (1.0, 0.5, 8.0, 20.0, 60.0):
        for nx, ny in [(1, 1), (2, 2), (4, 1)]:
            c = dict(kind="IDW", corr="-", poly="-", nc=0, v="p%g" % p)
            wk = walks[w % len(walks)]; w += 1
            jobs.append(("IDW/p%g/x%dy%d" % (p, nx, ny), dict(tol=100, convex=True),
                         lambda c=c, nx=nx, ny=ny, wk=wk, w=w: play(c, dict(need=False), nx, ny, wk, w % 9)))
    ctx.validate("InterpTrace", parallel(jobs))
