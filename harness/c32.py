"""C32: equivariance of trained models under relabelling and rescaling (spec/Equivar.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo

KRG = ("MGP", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK")


def allowed(c, mode, ny, nx):
    """the maps that have a documented effect on this model; mode "free": only maps that are exact in floating point,
    so that the hyperparameter search is the same"""
    k = c["kind"]
    w = {"outaffine"}
    if nx > 1 and mode == "pinned":
        w.add("inputs")
    if mode == "pinned":
        w.add("rows")
    # the PLS of several outputs is iterative and starts at the first of them
    if ny > 1 and not (mode == "free" and k in KRG) and not c["nc"]:
        w.add("outputs")
    if k not in ("RMTB", "RMTC"):       # their energy is measured in the units of the inputs
        w.add("inaffine")
    return w


def play(c, cap, nx, ny, walk, seed, mode):
    D = zoo.Data(c, zoo.npoints(c, nx), nx, ny, seed)
    k = c["kind"]
    xl = zoo.limits(nx).copy()
    lev = D.levels or [(D.X, D.Y)]
    lev = [(X.copy(), Y.copy()) for X, Y in lev]
    dY = np.array([d.copy() for d in D.dY])          # nx, n, ny
    P = zoo.points(5, nx, seed, margin=0.15)
    if k in ("RMTB", "RMTC", "GEKPLS"):
        P = zoo.points(5, nx, seed)
    iso = k in ("IDW", "RBF")
    S = 8.0 * max(1e-6, float(np.ptp(D.Y)), float(np.abs(D.Y).max()))
    W = (xl[:, 1] - xl[:, 0]).copy()
    W0 = W.copy()
    d0 = float(c["v"][1:]) if k == "RBF" else None
    over = {}
    t0 = (20.0 if D.levels else 4.0) if nx == 1 else 0.8
    if k in KRG and mode == "pinned":
        over.update(theta_bounds=[t0 * (1 - 1e-9), t0 * (1 + 1e-9)], hyper_opt="TNC")
        over["theta0"] = [t0] * max(1, c["nc"])
    if k in ("RMTB", "RMTC"):
        over.update(solver="lu", derivative_solver="lu", nonlinear_maxiter=0 if mode == "pinned" else 5)
    units = W.copy()          # slopes are recorded in these units, which never change

    def observe():
        kw = dict(over)
        if d0 is not None:
            kw["d0"] = d0
        sm = zoo.build(c, nx, xl=xl, **kw)
        for i, (X, Y) in enumerate(lev[:-1]):
            sm.set_training_values(X.copy(), Y.copy(), name=i)
        sm.set_training_values(lev[-1][0].copy(), lev[-1][1].copy())
        if cap["need"]:
            for i in range(nx):
                sm.set_training_derivatives(lev[-1][0].copy(), dY[i].copy(), i)
        np.random.seed(11)
        with Quiet():
            sm.train()
            v = np.asarray(sm.predict_values(P.copy())).reshape(len(P), -1)
            w = np.asarray(sm.predict_variances(P.copy())).reshape(len(P), -1) if cap["va"] else np.zeros((0, 0))
            d = [np.asarray(sm.predict_derivatives(P.copy(), i)).reshape(len(P), -1) for i in range(nx)] if cap["der"] else []
        return v, w, d

    def event(op, g):
        v, w, d = observe()
        vs = observe.vs
        return dict(op=op, res="ok", g=g, v=fxm(v / S), w=fxm(w / vs) if len(w) else [], d=[fxm(z * observe.ds / (S * 8)) for z in d])
    observe.ds = 1.0
    v, w, d = observe()
    observe.vs = 16 * max(1e-9, float(w.max())) if len(w) else 1.0
    if d:
        observe.ds = S / max(1e-9, max(np.abs(z).max() for z in d))
    ev = [event("first", dict(what="none"))]
    outp = np.zeros(ny, int); inp = np.zeros(nx, int); off = np.zeros(ny)
    ok = allowed(c, mode, ny, nx)
    for q in walk:
        if q["what"] not in ok:
            continue
        r = np.random.RandomState(q["seed"])
        g = dict(what=q["what"])
        if q["what"] == "rows":
            for i in range(len(lev)):
                pi = r.permutation(len(lev[i][0]))
                lev[i] = (lev[i][0][pi], lev[i][1][pi])
                if i == len(lev) - 1:
                    dY = dY[:, pi]
        elif q["what"] == "outputs":
            pi = r.permutation(ny)
            lev = [(X, Y[:, pi]) for X, Y in lev]
            dY = dY[:, :, pi]; outp = outp[pi]; off = off[pi]
            g["pi"] = [int(i) + 1 for i in pi]
        elif q["what"] == "inputs":
            pi = r.permutation(nx)
            lev = [(X[:, pi], Y) for X, Y in lev]
            dY = dY[pi]; xl = xl[pi]; W = W[pi]; P = P[:, pi]; inp = inp[pi]
            g["pi"] = [int(i) + 1 for i in pi]
        elif q["what"] == "outaffine":
            j, p, s, b = q["j"] % ny, q["p"], q["s"], q["b"]
            if k == "RBF" and c["poly"] == "-1" or mode == "free":
                b = 0
            if k in ("RMTB", "RMTC"):
                if mode == "free":
                    p = 0
                b = 0
            if abs(outp[j] + p) > 2:
                p = 0
            b = b * S / 16
            f = s * 2.0 ** p
            if abs(off[j] * f + b) > 4 * S:
                b = 0.0
            for i in range(len(lev)):
                Y = lev[i][1].copy(); Y[:, j] = f * Y[:, j] + b
                lev[i] = (lev[i][0], Y)
            dY = dY.copy(); dY[:, :, j] *= f
            outp[j] += p; off[j] = off[j] * f + b
            g.update(j=j + 1, p=int(p), s=s, b=fx(b / S))
        else:
            p = q["p"]
            js = list(range(nx)) if iso else [q["j"] % nx]
            if any(abs(inp[j] + p) > 2 for j in js):
                p = 0
            f = 2.0 ** p
            for j in js:
                b = 0.0 if mode == "free" else q["b"] * (1.0 + 0.25 * j)
                lev = [(np.array(X), Y) for X, Y in lev]
                for X, _ in lev:
                    X[:, j] = f * X[:, j] + b
                P = P.copy(); P[:, j] = f * P[:, j] + b
                xl = xl.copy(); xl[j] = f * xl[j] + b
                dY = dY.copy(); dY[j] /= f
                inp[j] += p
                gj = dict(what="inaffine", j=j + 1, p=int(p), s=1, b=0)
                if j != js[-1]:
                    # one map of the model at a time is observed; the others of an isotropic map are only applied
                    ev.append(dict(op="silent", res="ok", g=gj))
                else:
                    g = gj
            if d0 is not None:
                d0 *= f
        ev.append(event("then", g))
    return ev


def run(ctx):
    ctx.model_check("Equivar", {"Coords": tlaset([0, 1, 3]), "Moves": ctx.n(2, 3)}, ["Values", "Slopes"])
    recs = configs(ctx, lambda c, p: c["kind"] != "GENN", mgp=True)
    walks = ctx.generate("EquivarGen", {"Depth": ctx.n(10, 24)}, num=400, depth=30)
    jobs, w = [], 0
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        if c["kind"] in ("RMTB", "RMTC") and c["v"] not in ("energy", "lu", "order3", "elem2"):
            continue
        if c["kind"] == "GEKPLS" and c["nc"] == 2:      # the local linear models GEKPLS projects have one component: the second is rounding noise
            continue
        for nx, ny in [(2, 1), (3, 1), (2, 2), (1, 1), (2, 3)]:
            if (ny > 1 and not cap["my"]) or (nx == 1 and not cap["one"]) or (nx == 3 and c["kind"] in ("RMTB", "RMTC")):
                continue
            for mode in ("pinned", "free"):
                if c["kind"] == "MGP" and mode == "pinned":     # its directions can take any sign
                    continue
                for rep in range(ctx.n(1, 3)):
                    wk = walks[w % len(walks)]["walk"]; w += 1
                    key = "%s/x%dy%d/%s" % (zoo.name_of(c), nx, ny, mode)
                    jobs.append((key + "/w%d" % w, dict(tol=30, vtol=30, dtol=60),
                                 (lambda c=c, cap=cap, nx=nx, ny=ny, wk=wk, w=w, mode=mode: play(c, cap, nx, ny, wk, 2 + w % 7, mode)), dict(key=key, limit=120)))
    ctx.validate("EquivarTrace", parallel(jobs))
