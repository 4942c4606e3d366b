"""C33: the error measure (spec/Errors.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo


class Stub:
    """a surrogate by interface only: polynomial predictions"""
    def __init__(self, X, Y, dY, seed):
        self.training_points = {None: {0: [X, Y]}}
        for k, d in enumerate(dY):
            self.training_points[None][k + 1] = [X, d]
        r = np.random.RandomState(seed)
        self.w = r.uniform(-1, 1, (X.shape[1], Y.shape[1]))
        self.asked = []

    def predict_values(self, x):
        self.asked.append(None)
        return x.dot(self.w) + 0.1

    def predict_derivatives(self, x, kx):
        self.asked.append(kx)
        return np.ones((len(x), 1)) * self.w[kx] + 0.3 * x[:, kx:kx + 1]


def model(m):
    import smt.surrogate_models as S
    nx, ny = m["nx"], m["ny"]
    k = m["kind"]
    if k in ("GEKPLS",):
        ny, nx = 1, max(2, nx)
    n = 8 + 3 * nx + (6 if k == "QP" else 0)
    X = zoo.doe(n, nx, m["seed"])
    Y, dY = zoo.f_smooth(X, ny)
    ders = m["der"] if k in ("stub", "RMTB") else k == "GEKPLS" or (k == "GENN" and m["der"])
    if k == "stub":
        return Stub(X, Y, dY if ders else [], m["seed"]), nx, ny, ders
    kw = dict(print_global=False)
    if k == "GEKPLS":
        kw.update(n_comp=1, theta0=[0.5], xlimits=zoo.limits(nx))
    if k == "RMTB":
        kw.update(xlimits=zoo.limits(nx), num_ctrl_pts=5)
    if k == "GENN":
        kw.update(num_epochs=1, num_iterations=5, wide=3, deep=1, is_print=False, seed=1)
    if k == "KRG":
        kw.update(theta0=[0.5])
    sm = getattr(S, k)(**kw)
    sm.set_training_values(X, Y)
    if ders:
        for j in range(nx):
            sm.set_training_derivatives(X, dY[j], j)
    with Quiet():
        sm.train()
    return sm, nx, ny, ders


def play(b, mod):
    from smt.utils.misc import compute_rms_error
    np.random.seed(7)
    sm, nx, ny, ders = mod
    tp = sm.training_points[None]
    ev = []
    for q in b["walk"]:
        kx = q["kx"] if q["kx"] < nx else q["kx"] % nx
        arg = None if kx < 0 else kx
        ask = lambda x: np.asarray(sm.predict_values(x) if arg is None else sm.predict_derivatives(x, arg), float)
        if q["given"]:
            x = zoo.points(q["n"], nx, q["seed"])
            if ny > 1:
                continue        # validation references are one column
            v, dv = zoo.f_smooth(x, 1)
            y = v if arg is None else dv[arg]
            if q["ref"] == "random":
                y = np.random.RandomState(q["seed"]).uniform(0.2, 2, (len(x), 1))
            elif q["ref"] == "exact":
                with Quiet():
                    y = ask(x.copy()).copy()
            elif q["ref"] == "far":
                y = y * 50.0 + 40.0
            y = dict(flat=y.ravel(), col=y, row=y.reshape(1, -1))[q["shape"]].copy()
            a = dict(xe=x, ye=y)
        else:
            if arg is not None and not ders:
                x = y = None
            else:
                x, y = tp[0 if arg is None else arg + 1]
            a = {}
        before = [np.array(v) for k in sorted(tp) for v in tp[k]] + ([x.copy(), y.copy()] if x is not None else [])
        res, r = attempt(compute_rms_error, sm, kx=arg, **a) if arg is not None or q["seed"] % 2 else attempt(compute_rms_error, sm, **a)
        after = [np.array(v) for k in sorted(tp) for v in tp[k]] + ([x, y] if x is not None else [])
        e = dict(op="error", req=dict(given=q["given"], kx=kx if arg is not None else -1), res=res, kept=all(same(c, d) for c, d in zip(before, after)))
        if res == "ok":
            e["scalar"] = np.ndim(r) == 0 and r is not None
            with Quiet():
                p = ask(np.array(x)).ravel()
            yy = np.asarray(y, float).ravel()
            S = max(1e-9, np.sqrt(max(np.sum(yy ** 2), np.sum((p - yy) ** 2))) / 3.0)
            if np.linalg.norm(yy) < 0.25 * np.linalg.norm(p - yy) or np.linalg.norm(yy) == 0:
                continue
            e.update(r=fx(r), p=fxs(p, S), y=fxs(yy, S))
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Errors", {"Vals": tlaset([0, 1, 2, 3]), "N": ctx.n(2, 3)}, ["ZeroIffEqual", "ScaleFree", "OrderFree", "NullModel"])
    bs = ctx.generate("ErrorsGen", {"Depth": 14}, num=ctx.n(140, 1000), depth=18)
    jobs = []

    def scen(b):
        return play(b, model(b["mod"]))
    for i, b in enumerate(bs):
        m = b["mod"]
        ders = m["kind"] == "GEKPLS" or (m["kind"] in ("stub", "RMTB", "GENN") and m["der"])
        nx = max(2, m["nx"]) if m["kind"] == "GEKPLS" else m["nx"]
        jobs.append(("%s-%d" % (m["kind"], i), dict(trained=[-1] + (list(range(nx)) if ders else [])), (lambda b=b: scen(b)), dict(key=m["kind"], limit=60)))
    ctx.validate("ErrorsTrace", parallel(jobs))
