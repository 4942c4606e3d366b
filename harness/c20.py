"""C20: variable-fidelity bridges (spec/Vfm.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo

BYDERIV = ("GEKPLS", "RMTB", "RMTC")
DS = 5.0       # scale of slopes


def hfun(X, ny):
    Y, d = zoo.f_smooth(X, ny)
    return 4.0 + 0.5 * Y, [0.5 * k for k in d]


def lfun(X, ny):
    Y, d = hfun(X, ny)
    L = zoo.limits(4)[:X.shape[1]]
    w = L[:, 1] - L[:, 0]
    U = (X - L[:, 0]) / w
    return 0.7 * Y + 0.4 * np.sum(U, axis=1, keepdims=True), [0.7 * k + 0.4 / w[i] for i, k in enumerate(d)]


def opts(kind, nx):
    o = dict(print_global=False)
    if kind in ("RMTB", "RMTC"):
        o.update(xlimits=zoo.limits(nx), solver="lu", nonlinear_maxiter=3)
        o.update(dict(num_ctrl_pts=6) if kind == "RMTB" else dict(num_elements=2))
    elif kind == "GEKPLS":
        o.update(xlimits=zoo.limits(nx), n_comp=1, theta0=[0.5], theta_bounds=[1e-2, 20.0])
    elif kind in ("KPLS", "KPLSK"):
        o.update(n_comp=1, theta0=[0.5], theta_bounds=[1e-2, 20.0])
    elif kind == "RBF":
        o.update(d0=0.3 if nx == 1 else 0.8)
    elif kind == "KRG":
        o.update(theta0=[0.5], theta_bounds=[1e-2, 20.0])
    return o


def cls(kind):
    import smt.surrogate_models as S
    return getattr(S, kind)


def reference(kind, o, X, Y, dY):
    m = cls(kind)(**o)
    m.options["print_global"] = False
    m.set_training_values(X, Y)
    if dY is not None:
        for i in range(X.shape[1]):
            m.set_training_derivatives(X, dY[i], i)
    with Quiet():
        m.train()
    return m


class Case:
    def __init__(self, c, seed):
        self.c = c
        nx = c["nx"]
        self.XL = zoo.doe(20 + 8 * nx, nx, seed)
        self.XH = zoo.doe(9 + 6 * nx, nx, seed + 1)
        self.YL, self.dL = lfun(self.XL, c["ny"])
        self.YH, self.dH = hfun(self.XH, c["ny"])
        sl, sh = (1, 1) if seed % 4 == 0 else (-1, 1) if seed % 4 == 1 else (1, -1) if seed % 4 == 2 else (-1, -1)     # every sign of the ratio
        self.YL, self.dL = sl * self.YL, [sl * d for d in self.dL]
        self.YH, self.dH = sh * self.YH, [sh * d for d in self.dH]
        self.aL = np.hstack(self.dL) if c["ny"] == 1 else None     # one column per input
        self.aH = np.hstack(self.dH) if c["ny"] == 1 else None

    def arrays(self):
        return [a for a in (self.XL, self.YL, self.XH, self.YH, self.aL, self.aH) if a is not None]

    def dicts(self):
        c = self.c
        lo = opts(c["lf"], c["nx"]); bo = opts(c["b"], c["nx"])
        self.dl, self.db = c["dlf"] == "yes", c["db"] == "yes"
        shared = c["shared"] and c["lf"] == c["b"]
        if c["lf"] == "GEKPLS":
            self.dl = True
        if c["b"] == "GEKPLS":
            self.db = True
        for o, given, want in ((lo, c["dlf"], self.dl), (bo, c["db"], self.db)):
            if given != "absent" or want:
                o["deriv"] = want
        if shared:
            bo = lo; self.db = self.dl
        return lo, bo

    def vfm(self, lo, bo, **over):
        from smt.applications import VFM
        c = self.c
        kw = dict(type_bridge=c["type"], name_model_LF=cls(c["lf"]) if c["byclass"] else c["lf"], name_model_bridge=c["b"],
                  X_LF=self.XL, y_LF=self.YL, X_HF=self.XH, y_HF=self.YH, options_LF=lo, options_bridge=bo)
        if self.dl or self.db:
            kw.update(dy_LF=self.aL, dy_HF=self.aH)
        kw.update(over)
        return VFM(**{k: v for k, v in kw.items() if v is not None})

    def refs(self, lo, bo):
        c = self.c
        strip = lambda o: {k: v for k, v in o.items() if k != "deriv"}
        nx = c["nx"]
        np.random.seed(0)
        L = reference(c["lf"], strip(lo), self.XL, self.YL, self.dL if self.dl else None)
        with Quiet():
            l = L.predict_values(self.XH)
        add = c["type"] == "Additive"
        yb = self.YH - l if add else self.YH / l
        ev = []
        for i in range(len(l)):
            zl, zb, zy = scales(c["type"], l[i], yb[i])
            ev.append(dict(op="datum", h=fxs(self.YH[i], zy), l=fxs(l[i], zl), b=fxs(yb[i], zb)))
        db = None
        if self.db:
            with Quiet():
                dl = [L.predict_derivatives(self.XH, i) for i in range(nx)]
            db = [self.dH[i] - dl[i] if add else (self.dH[i] * l - self.YH * dl[i]) / l ** 2 for i in range(nx)]
            for i in range(nx):
                for r in (0, 3, 7):
                    zl, zb, zy = scales(c["type"], np.r_[l[r], dl[i][r] / DS], np.r_[yb[r], db[i][r] / DS])
                    ev.append(dict(op="datumslope", dh=fx(self.dH[i][r], DS * zy), l=fx(l[r], zl), dl=fx(dl[i][r], DS * zl), b=fx(yb[r], zb), db=fx(db[i][r], DS * zb)))
        B = reference(c["b"], strip(bo), self.XH, yb, db)
        return L, B, ev


def scales(typ, l, b):
    """units keeping every factor below ten"""
    zl, zb = max(1.0, np.max(np.abs(l)) / 10), max(1.0, np.max(np.abs(b)) / 10)
    return (zl, zb, zl * zb) if typ != "Additive" else (max(zl, zb),) * 3


def play(b):
    c = b["c"]
    nx, ny = c["nx"], c["ny"]
    C = Case(c, c["seed"])
    keep = [a.copy() for a in C.arrays()]
    lo, bo = C.dicts()
    kd = (dict(lo), dict(bo))
    L, B, ev = C.refs(lo, bo)
    sup = L.supports["derivatives"] and B.supports["derivatives"]
    np.random.seed(0)
    m = C.vfm(lo, bo)
    xl = zoo.limits(nx)

    def evals(P, k=None, what="slope"):
        with Quiet():
            y = np.asarray(m.predict_values(P.copy())); l = L.predict_values(P); q = B.predict_values(P)
        out = [dict(op="equal", ok=shape(y) == [len(P), ny], what="prediction-shape")]
        if k is None:
            for i in range(len(P)):
                zl, zb, zy = scales(c["type"], l[i], q[i])
                out.append(dict(op="value", y=fxs(y[i], zy), l=fxs(l[i], zl), b=fxs(q[i], zb)))
            return out
        with Quiet():
            if k == "all":
                D = np.asarray(m.predict_derivatives(P.copy(), None))
                D = [D[:, i:i + 1] for i in range(nx)] if shape(D) == [len(P), nx] else [np.zeros((0, 0))] * nx
            else:
                D = {k: np.asarray(m.predict_derivatives(P.copy(), k))}
        for i in (range(nx) if k == "all" else [k]):
            d = D[i]
            out.append(dict(op="equal", ok=shape(d) == [len(P), ny], what="derivative-shape"))
            with Quiet():
                dl = L.predict_derivatives(P, i); dq = B.predict_derivatives(P, i)
            if shape(d) == [len(P), ny]:
                for r in range(len(P)):
                    zl, zb, zy = scales(c["type"], np.r_[l[r], dl[r] / DS], np.r_[q[r], dq[r] / DS])
                    out.append(dict(op="slope", what=what, d=fxs(d[r], DS * zy), l=fxs(l[r], zl), dl=fxs(dl[r], DS * zl), b=fxs(q[r], zb), db=fxs(dq[r], DS * zb)))
        return out

    for o in b["ops"]:
        n = 1 if o["op"] == "one" else 5
        P = zoo.points(n, nx, o["seed"])
        if o["op"] == "rebuild":       # a second model from the same dictionaries
            np.random.seed(0)
            m = C.vfm(lo, bo)
            ev += evals(P)
        elif o["op"] == "data":        # another model of the same options on other data
            C = Case(c, o["seed"]); keep = [a.copy() for a in C.arrays()]
            C.dicts()
            L, B, e2 = C.refs(lo, bo)
            ev += e2
            np.random.seed(0)
            m = C.vfm(lo, bo)
            ev += evals(P)
        elif o["op"] in ("values", "one"):
            ev += evals(P)
        elif sup and not (o["op"] == "allslopes" and ny > 1):
            ev += evals(P, "all" if o["op"] == "allslopes" else o["seed"] % nx)
        elif not sup:
            ev.append(dict(op="refused", res=attempt(m.predict_derivatives, P, 0)[0]))
    if c["b"] in ("KRG", "KPLS", "KPLSK", "RBF", "IDW"):
        with Quiet():
            y = m.predict_values(C.XH)
        ev += [dict(op="atdata", y=fxs(y[i]), h=fxs(C.YH[i])) for i in range(len(y))]
    ev.append(dict(op="equal", ok=same(lo, kd[0]) and same(bo, kd[1]), what="caller-options-changed"))
    ev.append(dict(op="equal", ok=all(same(a, k) for a, k in zip(C.arrays(), keep)), what="caller-data-changed"))
    # malformed requests
    with_none = C.vfm(lo, bo, X_HF=None)
    ev.append(dict(op="refused", res=attempt(with_none.predict_values, P)[0]))
    ev.append(dict(op="refused", res=attempt(lambda: C.vfm(lo, bo, name_model_bridge="nope").predict_values(P))[0]))
    return ev


def run(ctx):
    big = ctx.thorough
    ctx.model_check("Vfm", {"Vals": tlaset([0, 1, 3] if ctx.thorough else [0, 2]), "Slopes": tlaset([0, 1]), "NPts": ctx.n(1, 2)},
                    ["SameTwice", "Reproduces", "ReproducesSlope"], ["Untouched"])
    bs = ctx.generate("VfmGen", {"MaxOps": ctx.n(5, 9)}, num=ctx.n(150, 900), depth=ctx.n(10, 14))
    jobs = []
    for i, b in enumerate(bs):
        c = b["c"]
        key = "%s-%s-%s" % (c["type"], c["lf"], c["b"])
        jobs.append(("%s-x%dy%d-%d" % (key, c["nx"], c["ny"], i), dict(type=c["type"], ny=c["ny"], tol=60), (lambda b=b: play(b)), dict(key=key, limit=150)))
    ctx.validate("VfmTrace", parallel(jobs))
