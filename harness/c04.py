"""C04: predictions are functions of the point (spec/Predict.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo


def pool(nx, D, seed):
    """7 points: training point, point sharing a coordinate with one, inside ones, an integer one, an outside one"""
    P = zoo.points(7, nx, seed)
    P[0] = D.X[1]
    P[1, 0] = D.X[2, 0]
    P[5] = np.round(P[5])
    P[6] = zoo.points(1, nx, seed + 1, margin=0.3)[0]
    return P


def filler(nx, nt):
    """so many points that the correlations with the training points are more than ten thousand"""
    return zoo.points(10200 // nt, nx, 77)


def form(f, x):
    if f == "1d" and x.shape[1] == 1:
        return x[:, 0].copy()
    if f == "fortran":
        return np.asfortranarray(x)
    if f == "view":
        B = np.full((2 * x.shape[0], x.shape[1] + 1), 7.25); B[::2, :-1] = x
        return B[::2, :-1]
    return x.copy()


def methods(sm, nx, ny, nt, cap, sc):
    dsc = sc
    M = [("values", sm.predict_values, sc, ny)]
    if cap["der"]:
        for k in range(nx):
            M.append(("derivs%d" % k, (lambda x, k=k: sm.predict_derivatives(x, k)), dsc * 3, ny))
    if cap["va"]:
        M.append(("variance", sm.predict_variances, sc * sc, ny))
    if cap["od"]:
        def od(x):
            o = sm.predict_output_derivatives(x)
            return np.concatenate([np.asarray(o[k]).reshape(x.shape[0], -1) for k in sorted(o, key=str)], axis=1)
        M.append(("outders", od, 1.0, None))
    if cap["vd"]:
        M.append(("varders", sm.predict_variance_derivatives, sc * sc * 3, None))
    return M


def play(c, cap, nx, ny, walk, seed, extra=None, model=None):
    D = zoo.Data(c, zoo.npoints(c, nx), nx, ny, seed)
    sm = model(D) if model else zoo.build(c, nx)
    with Quiet():
        if not model:
            D.load(sm, cap)
            sm.train()
    sc = max(1e-3, float(np.ptp(D.Y)))
    P = pool(nx, D, seed)
    M = methods(sm, nx, ny, D.X.shape[0], cap, sc)
    ev = []
    widths = {}
    for q in walk:
        kind, f, s, w = M[q["m"] % len(M)]
        ids = q["pts"]
        if kind == "varders":
            ids = ids[:1]
        x = form(q["form"], P[[i - 1 for i in ids]])
        big = 0
        if q["form"] == "big" and kind in ("values", "variance", "derivs0", "derivs1") and q["op"] != "badwidth":
            x = np.vstack([filler(nx, len(D.X)), x]); big = len(x) - len(ids)
        e = dict(op=q["op"], m=kind, kind=kind.rstrip("0123456789"), pts=ids)
        if q["op"] == "badwidth":
            x = np.c_[x, x[:, :1]]
            e["res"], _ = attempt(f, x)
        else:
            keep = np.array(x)
            e["res"], r = attempt(f, x)
            e["xsame"] = bool(np.array_equal(keep, x))
            if e["res"] == "ok":
                r = np.asarray(r)
                if big and len(r) == len(x):
                    r = r[big:]
                if kind == "varders":
                    r = r.reshape(1, -1)
                e["rows"] = fxm(r, s) if r.ndim == 2 else []
                e["width"] = w if w is not None else widths.setdefault(kind, int(np.size(r) // len(ids)))
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Predict", {"Methods": "{1, 2}", "Points": "{1, 2}", "MaxLen": 2, "MaxOps": ctx.n(3, 4)}, ["Restriction", "NeverStuck", "Detects"])
    recs = configs(ctx)
    walks = ctx.generate("PredictGen", {"Depth": ctx.n(24, 60), "NPoints": 7, "NMethods": 12, "MaxLen": 5}, num=400, depth=70)
    jobs, w = [], 0
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        combos = [(2, 1), (3, 1), (2, 2)] + ([(1, 1)] if cap["one"] else [])
        for nx, ny in combos:
            if ny == 2 and not cap["my"]:
                continue
            if c["kind"] in ("RMTB", "RMTC") and nx == 3 and not ctx.thorough:
                continue
            wk = walks[w % len(walks)]; w += 1
            jobs.append(("%s/x%dy%d" % (zoo.name_of(c), nx, ny), dict(tol=60), (lambda c=c, cap=cap, nx=nx, ny=ny, wk=wk, w=w: play(c, cap, nx, ny, wk, 3 + w % 5))))
    ctx.validate("PredictTrace", parallel(jobs))
