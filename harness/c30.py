"""C30: reductions of benchmark problems (spec/Bench.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import benchlib as B


def judge(prob, dims, lims, w, ok, ev, seed, par, keepw, value, cx):
    """prob is a reduction of the function `value` of len(lims) variables to `dims`, the others at fraction w (per variable)"""
    n = len(dims)
    ev.append(dict(op="limits", got=[fxs(r, max(1.0, np.max(np.abs(lims)))) for r in np.asarray(prob.xlimits, float)],
                   want=[fxs(lims[d], max(1.0, np.max(np.abs(lims)))) for d in dims], ndim=prob.options["ndim"] == n))
    lo, hi = lims[:, 0], lims[:, 1]
    top = np.maximum(np.abs(lo), np.abs(hi)) / 10.0
    fixed = (1 - w) * lo + w * hi
    r = np.random.RandomState(seed)
    X = []
    for _ in range(300):
        x = lo[dims] + (hi - lo)[dims] * (0.01 + 0.98 * r.rand(n))
        full = fixed.copy(); full[dims] = x
        if ok(full):
            X.append(x)
        if len(X) == 4:
            break
    if not X:
        return
    X = np.array(X)
    keep = X.copy()
    y = np.real(prob(X)).ravel()
    D = [np.real(prob(X, k)).ravel() for k in range(n)]
    F = np.repeat(fixed[None], len(X), 0)
    F[:, dims] = X
    v = np.array([value(f) for f in F])
    S = 3 * max(1e-12, np.ptp(v), np.max(np.abs(v)))
    wid = (hi - lo)[dims]
    for i in range(len(X)):
        wd = []
        for k in range(n):
            h = 2e-4 * wid[k]
            E = np.zeros(len(lo)); E[dims[k]] = h
            q = [value(F[i] + m * E) for m in (-2, -1, 1, 2)]
            wd.append((q[0] - 8 * q[1] + 8 * q[2] - q[3]) / (12 * h))
        sd = np.maximum(S / wid, 3 * np.abs(wd))
        ev.append(dict(op="embed", dims=[int(d) + 1 for d in dims], lo=fxs(lo, top), hi=fxs(hi, top), w=fx(keepw), x=fxs(X[i], top[dims]), full=fxs(F[i], top),
                       val=fx(y[i], S), want=fx(v[i], S), ders=[fx(D[k][i], sd[k]) for k in range(n)], wantders=[fx(wd[k], sd[k]) for k in range(n)],
                       kept=same(X, keep)))
    one = np.array([np.real(prob(X[i:i + 1]))[0, 0] for i in range(len(X))])
    ev.append(dict(op="rows", same=bool(np.allclose(one, y, rtol=1e-13)), kept=same(X, keep)))
    ev.append(dict(op="reject", what="index-too-large", res=attempt(lambda: prob(X, n))[0]))
    ev.append(dict(op="reject", what="too-many-variables", res=attempt(lambda: prob(np.hstack([X, X])))[0]))


def play(q):
    from smt.problems import ReducedProblem, NdimCantileverBeam, NdimRobotArm, NdimRosenbrock, NdimStepFunction
    ev = []
    w = 0.2 if q["w"] < 0 else q["w"] / 100.0
    kw = {} if q["w"] < 0 else dict(w=w)
    if q["kind"] == "wrapper":
        d = q["dim"]
        if q["name"] == "nstep":
            p = NdimStepFunction(ndim=d) if q["w"] < 0 else NdimStepFunction(ndim=d, width=1.0 + q["w"] / 20.0)
            a = 10.0 if q["w"] < 0 else 1.0 + q["w"] / 20.0
            dims, lims, name = np.arange(d), np.array([[-1.0, 1.0]] * d), "tp-tanh"
            value = lambda x: float(np.prod(np.tanh(a * x)))
        elif q["name"] == "nbeam":
            p = NdimCantileverBeam(ndim=d, **kw)
            dims, lims, name = np.arange(1, 3 * d, 3), np.array([[0.01, 0.05], [0.3, 0.65], [0.5, 1.0]] * d), "beam"
            value = lambda x: B.reference("beam", 1, x)
        elif q["name"] == "narm":
            p = NdimRobotArm(ndim=d, **kw)
            dims, lims, name = np.arange(3, 2 * (d + 1), 2), np.array([[0.0, 1.0], [0.0, 2 * np.pi]] * (d + 1)), "arm"
            value = lambda x: B.reference("arm", 1, x)
        else:
            p = NdimRosenbrock(ndim=d, **kw)
            dims, lims, name = np.arange(1, d + 1), np.array([[-2.0, 2.0]] * (d + 1)), "rosen"
            value = lambda x: B.reference("rosen", 1, x)
        if q["complex"]:
            p.options["return_complex"] = True
        judge(p, dims, lims, np.full(len(lims), w), lambda x: B.smooth(name, x, None), ev, q["seed"], 1, w, value, q["complex"])
        return ev
    base = B.make(q["name"], q["dim"])
    lims = np.array(base.xlimits, float)
    nd = len(lims)
    r = np.random.RandomState(q["seed"])
    k = 1 + q["keep"] % nd
    if q["form"] == "int":
        dims = list(range(k)); arg = k
    else:
        dims = [int(i) for i in r.permutation(nd)[:k]]
        if q["form"] == "sorted":
            dims = sorted(dims)
        arg = dict(list=list(dims), tuple=tuple(dims), array=np.array(dims), sorted=list(dims))[q["form"]]
    keep = np.array(dims).copy()
    value = lambda x: B.reference(q["name"], 1, x)
    p = ReducedProblem(base, arg, **kw)
    ev.append(dict(op="rows", same=True, kept=True if q["form"] == "int" else [int(i) for i in arg] == [int(i) for i in keep]))
    if q["complex"]:
        p.options["return_complex"] = True
    judge(p, np.array(dims), lims, np.full(nd, w), lambda x: B.smooth(q["name"], x, None), ev, q["seed"], 1, w, value, q["complex"])
    if q["again"] and k > q["again"]:
        w2 = q["w2"] / 100.0
        d2 = [int(i) for i in r.permutation(k)[:q["again"]]]
        p2 = ReducedProblem(p, d2, w=w2)
        inner = np.array(dims)

        def val2(x):
            full = (1 - w) * lims[:, 0] + w * lims[:, 1]
            full[inner] = x
            return value(full)
        def ok2(x):
            full = (1 - w) * lims[:, 0] + w * lims[:, 1]
            full[inner] = x
            return B.smooth(q["name"], full, None)
        judge(p2, np.array(d2), lims[inner], np.full(k, w2), ok2, ev, q["seed"] + 1, 1, w2, val2, q["complex"])
    for what, fn in (("too-many-kept", lambda: ReducedProblem(base, nd + 1)), ("variable-out-of-range", lambda: ReducedProblem(base, [0, nd])), ("nonsense", lambda: ReducedProblem(base, "ab"))):
        ev.append(dict(op="reject", what=what, res=attempt(fn)[0]))
    return ev


def run(ctx):
    ctx.model_check("Bench", {"N": 3, "Coords": tlaset([0, 1, 2]), "MaxDepth": 2}, ["Nested", "Chain"])
    bs = ctx.generate("ReduceGen", {"Depth": 1}, num=ctx.n(600, 6000), depth=4)
    jobs = [("%s-%d" % (b["name"], i), dict(name=b["name"]), (lambda b=b: play(b)), dict(key="%s-%s" % (b["kind"], b["name"]), limit=60)) for i, b in enumerate(bs)]
    ctx.validate("BenchTrace", parallel(jobs))
