"""C08: kriging variances (spec/Variance.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c07 import place, slopes

POW = [0, 3, -20, 20, -7]


def sign(a):
    a = np.atleast_1d(a)
    return [2 if not np.isfinite(v) else int(np.sign(v)) for v in a]


def play(c, cap, nx, ny, walk, seed, **over):
    D = zoo.Data(c, zoo.npoints(c, nx), nx, ny, seed)
    Y0, dY0, L0 = D.Y, D.dY, D.levels
    sc = max(1e-6, float(np.ptp(D.Y)))
    xl = zoo.limits(nx)
    w = xl[:, 1] - xl[:, 0]
    sm = zoo.build(c, nx, theta_bounds=[0.1, 30.0], **over)
    probe = np.vstack([zoo.points(4, nx, 5), zoo.points(3, nx, 6, margin=1.5)])
    ev = []
    a = np.ones(ny)
    allX = np.vstack([X for X, _ in D.levels]) if D.levels else D.X

    def vd(P, k):
        out = []
        for p in P:
            r = np.asarray(sm.predict_variance_derivatives(p[None]))
            out.append(np.atleast_1d(np.asarray(r)[..., k]).ravel())
        return np.array(out)
    for q in walk:
        if q["op"] == "train":
            a = np.array([2.0 ** POW[(q["pow"] + (j if L0 is None or not L0 else 0)) % 5] for j in range(ny)])     # every output in its own units
            D.Y = Y0 * a; D.dY = [d * a for d in dY0]
            if L0:
                D.levels = [(X, Y * a) for X, Y in L0]
            with Quiet():
                D.load(sm, cap); np.random.seed(7); sm.train()
                v = sm.predict_variances(probe)
            vs = max(sc ** 2, float(np.max(v / a ** 2)))
            ev.append(dict(op="train", res="ok", probe=fxm(v / (vs * a * a))))
        elif q["op"] == "atdata":
            ids = np.random.RandomState(q["seed"]).permutation(len(D.X))
            res, v = attempt(sm.predict_variances, D.X[ids])
            ev.append(dict(op="atdata", res=res, rows=fxm(v / (sc ** 2 * a * a)) if res == "ok" else [], sign=[sign(r) for r in v] if res == "ok" else []))
        elif q["op"] == "repeat":
            res, v = attempt(sm.predict_variances, probe)
            ev.append(dict(op="train", res=res, probe=fxm(v / (vs * a * a)) if res == "ok" else []))
        elif q["op"] == "ask":
            P = place(q, D, nx, xl)[None]
            res, v = attempt(sm.predict_variances, P)
            dist = np.min(np.max(np.abs((allX - P) / w), axis=1))
            ev.append(dict(op="ask", res=res, what=q["where"], away=bool(dist > 0.3), far=bool(q["where"] == "far" and not c["nc"]),
                           row=fxs(v[0] / (vs * a * a)) if res == "ok" and np.ndim(v) == 2 else [], sign=sign(v[0]) if res == "ok" else []))
        elif cap["vd"]:
            P = place(q, D, nx, xl)[None]
            for k in range(nx):
                for e in slopes(lambda x: sm.predict_variances(x) / (a * a), (lambda x, k: vd(x, k) / (a * a)), P, k, 2e-4 * w[k], 5 * vs / w[k], ny):
                    e["op"] = "slope"; e["what"] = q["where"]
                    ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Variance", {"Line": tlaset(range(ctx.n(6, 8))), "Scales": tlaset([1, 2, 3, 7])}, ["Bounded", "ZeroAtData", "Scaled"])
    recs = configs(ctx, lambda c, p: p["va"])
    walks = ctx.generate("VarianceGen", {"Depth": ctx.n(18, 40)}, num=300, depth=45)
    jobs, w = [], 0
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        for nx, ny in [(2, 1), (3, 1), (2, 2), (1, 1), (2, 3)] + ([(4, 1)] if c["kind"] in ("KRG", "KPLS") else []):
            if (ny > 1 and not cap["my"]) or (nx == 1 and not cap["one"]):
                continue
            for rep in range(ctx.n(1, 3)):
                wk = walks[w % len(walks)]; w += 1
                key = "%s/x%dy%d" % (zoo.name_of(c), nx, ny)
                jobs.append((key + "/w%d" % w, dict(ny=ny, tol=60, stol=20, dtol=400, kinks=c['corr'] == 'abs_exp'),
                             (lambda c=c, cap=cap, nx=nx, ny=ny, wk=wk, w=w: play(c, cap, nx, ny, wk, 2 + w % 7)), dict(key=key, limit=120)))
        for nx, nug in [(2, 1e-16), (3, 1e-16), (2, 1e-12)] if cap.get("mf") or c["kind"].startswith("MFK") else []:     # hardly any nugget: rounding shows
            wk = walks[w % len(walks)]; w += 1
            key = "%s/x%dnug" % (zoo.name_of(c), nx)
            jobs.append((key + "/w%d" % w, dict(ny=1, tol=60, stol=20, dtol=400, kinks=c['corr'] == 'abs_exp'),
                         (lambda c=c, cap=cap, nx=nx, wk=wk, w=w, nug=nug: play(c, cap, nx, 1, wk, 2 + w % 7, nugget=nug)), dict(key=key, limit=120)))
    ctx.validate("VarianceTrace", parallel(jobs))
