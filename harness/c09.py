"""C09: output derivatives are sensitivities to training outputs (spec/Sens.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c07 import place


def play(c, cap, nx, ny, walk, seed, derivs, linear, delta, **over):
    ev = []
    xl = zoo.limits(nx)
    D = None

    def fit(Y=None, dY=None):
        sm = zoo.build(c, nx, **over)
        sm.set_training_values(D.X, D.Y if Y is None else Y)
        if derivs:
            for k in derivs:
                sm.set_training_derivatives(D.X, (D.dY if dY is None else dY)[k], k)
        sm.train()
        return sm
    sm = None
    for q in walk:
        if q["op"] == "setdata":
            D = zoo.Data(c, zoo.npoints(c, nx) + q["seed"], nx, ny, seed + q["seed"])
            sc = max(1e-6, float(np.ptp(D.Y)))
            with Quiet():
                if sm is None or q["seed"] % 2:
                    sm = fit()
                else:       # the same object on new data
                    sm.training_points.clear()
                    sm.set_training_values(D.X, D.Y)
                    if derivs:
                        for k in derivs:
                            sm.set_training_derivatives(D.X, D.dY[k], k)
                    sm.train()
        elif q["op"] == "combine":
            if not linear:
                continue
            P = np.vstack([place(q, D, nx, xl), zoo.points(2, nx, q["seed"], margin=0.3)])
            res, o = attempt(sm.predict_output_derivatives, P)
            with Quiet():
                v = sm.predict_values(P)
            s = np.zeros_like(v)
            if res == "ok":
                s = np.einsum("ptj,tj->pj", np.asarray(o[None]), D.Y)
                for k in range(nx):
                    if k in o:
                        s = s + np.einsum("ptj,tj->pj", np.asarray(o[k]), D.dY[k])
            ev.append(dict(op="combine", res=res, sum=fxm(s, 4 * sc), pred=fxm(v, 4 * sc)))
        else:
            P = np.vstack([place(q, D, nx, xl)[None], zoo.points(3, nx, q["seed"] + 1, margin=0.2)])[:q["n"]]
            i = q["i"] % len(D.X)
            j = q["seed"] % ny
            key = None
            if q["k"] < nx and derivs:
                key = derivs[q["k"] % len(derivs)]
            res, o = attempt(sm.predict_output_derivatives, P)
            e = dict(op="sens", res=res, key="" if key is None else "-derivative", keys=[], d=[], up=[], dn=[], otherup=[], otherdn=[])
            if res == "ok":
                e["keys"] = sorted(-1 if k is None else int(k) for k in o)
                if key in o:
                    g = np.asarray(o[key])
                    ok = g.shape == (len(P), len(D.X), ny)
                    dl = delta * sc
                    unit = 1.0
                    if key is not None:
                        dl = delta * sc / (xl[key, 1] - xl[key, 0])
                        unit = xl[key, 1] - xl[key, 0]
                    pr = []
                    with Quiet():
                        b = sm.predict_values(P)
                        for s in (1, -1):
                            Y = D.Y.copy(); dY = [d.copy() for d in D.dY]
                            if key is None:
                                Y[i, j] += s * dl
                            else:
                                dY[key][i, j] += s * dl
                            pr.append((fit(Y, dY).predict_values(P) - b) / dl)
                    e["d"] = fxs(g[:, i, j], unit) if ok else []
                    e["up"] = fxs(pr[0][:, j], unit); e["dn"] = fxs(pr[1][:, j], unit)
                    o_ = [k for k in range(ny) if k != j]
                    e["otherup"] = fxs(pr[0][:, o_], unit); e["otherdn"] = fxs(pr[1][:, o_], unit)
            ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Sens", {"Line": tlaset(range(ctx.n(4, 5))), "Vals": tlaset(range(ctx.n(3, 4)))}, ["Sensitivity", "Recombines"])
    recs = configs(ctx, lambda c, p: p["od"])
    extra = [dict(kind="IDW", corr="-", poly="-", nc=0, v="p%g" % p) for p in (1.0, 0.7, 9.0)]
    recs += [dict(cfg=c, cap=dict(recs[0]["cap"])) for c in extra]
    walks = ctx.generate("SensGen", {"Depth": ctx.n(14, 30)}, num=300, depth=45)
    jobs, w = [], 0
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        rmt = c["kind"] in ("RMTB", "RMTC")
        if rmt and c["v"] in ("lu", "bracketed", "cubic"):
            continue
        for nx, ny in [(1, 1), (2, 1), (2, 2), (1, 3)] + ([(3, 2), (4, 1)] if not rmt else []):
            for derivs in ((False, True) if rmt else (False,)):
                for order in ((2, 4) if rmt else (0,)):
                    if order == 4 and c["v"] == "noenergy":
                        continue        # singular at its optimum
                    wk = walks[w % len(walks)]; w += 1
                    over = {}
                    if derivs:          # the inputs whose derivatives are given, in this order
                        derivs = [list(range(nx)), list(range(nx))[::-1], [nx - 1]][w // 2 % 3]
                    else:
                        derivs = []
                    if rmt:
                        over = dict(solver="lu", derivative_solver="lu", approx_order=order, nonlinear_maxiter=60, extrapolate=bool(w % 2),
                                    solver_tolerance=1e-14, regularization_weight=1e-10, energy_weight=1e-3)
                        if order == 4:
                            over.update(nonlinear_maxiter=200, energy_weight=1e-1)
                    tag = "/%s%d" % ("d" if derivs else "v", order)
                    linear = not rmt or order == 2
                    key = "%s%s/x%dy%d" % (zoo.name_of(c), tag, nx, ny)
                    jobs.append((key, dict(curved=order == 4, tol=150 if not rmt else 400 if order == 2 else 4000, keys=[-1] + sorted(derivs)),
                                 (lambda c=c, cap=cap, nx=nx, ny=ny, wk=wk, w=w, derivs=derivs, linear=linear, over=over, order=order:
                                  play(c, cap, nx, ny, wk, w % 7, derivs, linear, 0.5 if linear else 1e-3, **over)), dict(key=key, limit=150)))
    ctx.validate("SensTrace", parallel(jobs))
