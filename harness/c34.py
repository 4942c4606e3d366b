"""C34: the reduced likelihood and its maximisation (spec/Likelihood.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c31 import Case, kernel, trend, theta_of


class LCase(Case):
    def __init__(self, m):
        m = dict(m)
        self.mgp, self.gek = m["kind"] == "MGP", m["kind"] == "GEKPLS"
        kind = m["kind"]
        if self.mgp or self.gek:
            m.update(kind="KPLS", how="plain", ny=1)
        how = m["how"]
        if how == "plain":
            m["how"] = "given"
        super().__init__(m)
        if how == "plain":
            del self.opts["noise0"]
            self.N = np.zeros(len(self.D))
        self.how = how
        self.kind = kind
        n = m["level"]
        t0 = {1: 0.5, 2: 3.0, 3: 500.0, 4: 0.1}[n]
        self.t0 = t0
        self.opts["theta0"] = [t0] * len(self.opts["theta0"])
        if self.mgp:
            self.nc = self.opts["n_comp"]
            self.opts = dict(print_global=False, poly=self.poly, n_comp=self.nc, theta0=[0.3], prior=dict(mean=[0.0], var=[1.25, 0.5][n % 2]))
        if self.gek:
            self.opts.update(xlimits=zoo.limits(self.nx), extra_points=m["rep"] % 3, delta_x=0.02)
            self.opts["n_comp"] = 1
            self.opts["theta0"] = [t0]

    def fit(self):
        if not self.gek:
            return super().fit()
        import smt.surrogate_models as S
        sm = S.GEKPLS(**{k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.opts.items()})
        Y, dY = zoo.f_smooth(self.X, 1)
        sm.set_training_values(self.X, Y)
        for k in range(self.nx):
            sm.set_training_derivatives(self.X, dY[k], k)
        np.random.seed(3)
        with Quiet():
            sm.train()
        return sm


def reference(cs, sm, par):
    """the reduced likelihood at the hyperparameters `par`, or None when ill conditioned or unknown"""
    if cs.gek:
        return None
    u = cs.u(cs.D)
    n = len(u)
    nug = 100 * np.finfo(float).eps
    par = np.asarray(par, float).ravel()
    if cs.mgp:
        A = par.reshape(cs.nc, cs.nx).T
        R = np.exp(-0.5 * np.sum((np.abs(u[:, None] - u[None]) if False else (u[:, None] - u[None])) .dot(A) ** 2, axis=2))
        N = np.zeros(n)
    else:
        N = cs.N
        th = par
        if cs.how == "estimated":
            th, N = par[:-1], np.full(n, par[-1]); nug = 0.0

        class T:
            optimal_theta = th
            coeff_pls = getattr(sm, "coeff_pls", None)
        w = theta_of(cs, T)
        if w is None:
            return None
        R = kernel(cs.corr, w, u, u)
    R = R + np.diag(N + nug)
    if np.linalg.cond(R) > 1e8:
        return None
    F = trend(cs.poly, u)
    y = (cs.y - cs.ym) / cs.ys
    Ri = np.linalg.inv(R)
    B = np.linalg.solve(F.T @ Ri @ F, F.T @ Ri @ y)
    e = y - F @ B
    s2 = np.einsum("ij,ik,kj->j", e, Ri, e).sum() / n
    if s2 < 1e-10:
        return None
    v = -n * np.log10(s2) - np.linalg.slogdet(R)[1] / np.log(10)
    if cs.mgp:
        v -= np.sum((par - cs.opts["prior"]["mean"][0]) ** 2) / cs.opts["prior"]["var"]
    return v


def steady(f, p, st):
    """a step small enough for differences of f to be nearly linear"""
    for k in range(4):
        c = np.array([[np.asarray(f(p + m * z)) for m in (-2, 0, 2)] for z in np.diag(st)])
        bend = np.abs(c[:, 0] + c[:, 2] - 2 * c[:, 1]).max(); size = np.abs(c[:, 2] - c[:, 0]).max()
        if bend <= 0.1 * size:
            break
        st = st / 5.0
    return st


def play(b):
    cs = LCase(b["mod"])
    ev = []
    sm = None
    for q in [dict(op="train", seed=0)] + b["walk"]:
        r = np.random.RandomState(q["seed"])
        if q["op"] == "train":
            if sm is None or q["seed"] % 3 == 0:
                sm = cs.fit()
                th = np.asarray(sm.optimal_theta, float).ravel()
                par = th if cs.how != "estimated" else np.append(th, np.ravel(sm.optimal_noise)[0])
                val = float(np.squeeze(sm.optimal_rlf_value))
                ref = reference(cs, sm, par)
                if cs.mgp:
                    lo, hi = [fx(-20.0, 20)] * len(th), [fx(20.0, 20)] * len(th)
                    T = fxs(th, 20)
                    st = None
                else:
                    lo, hi = ([fx(np.log10(z), 10)] * len(th) for z in cs.opts["theta_bounds"])
                    T = fxs(np.log10(np.maximum(th, 1e-300)), 10)
                    st = None
                    if cs.kind in ("KRG", "KPLS") and cs.t0 <= 20:
                        p0 = [cs.t0] * len(th)
                        if cs.how == "estimated":
                            z = float(np.ravel(cs.opts.get("noise0", [0]))[0]); bn = cs.opts["noise_bounds"]
                            p0 = p0 + [z if bn[0] <= z <= bn[1] else bn[0]]
                        st = reference(cs, sm, p0)
                S = max(10.0, abs(val))
                ev.append(dict(op="trained", theta=T, lo=lo, hi=hi, value=fx(val, S), known=ref is not None, ref=fx(ref, S) if ref is not None else 0,
                               compare=st is not None, start=fx(st, S) if st is not None else 0))
            continue
        f0 = getattr(sm, "_reduced_likelihood_function", None)
        g0 = getattr(sm, "_reduced_likelihood_gradient", None)
        h0 = getattr(sm, "_reduced_likelihood_hessian", None)
        if f0 is None:
            continue
        f = lambda p: float(np.squeeze(f0(np.array(p))[0]))
        if cs.mgp:
            p = par + r.uniform(-0.4, 0.4, len(par))
            st = np.full(len(par), 1e-3)
        else:
            p = 10 ** r.uniform(-0.8, 0.8, len(par))
            if cs.how == "estimated":
                p[-1] = 10 ** r.uniform(-2, 0.5)
            st = 1e-3 * p
        if cs.kind == "GEKPLS" and q["op"] == "value":
            continue
        if cs.gek:
            ref = 0.0
            C = f0(p.copy())[1].get("C")
            if C is None or np.linalg.cond(C) > 1e4:
                continue
        else:
            ref = reference(cs, sm, p)
        if ref is None:
            continue
        with Quiet():
            if q["op"] == "value":
                v = f(p)
                S = max(10.0, abs(ref))
                ev.append(dict(op="value", value=fx(v, S), ref=fx(ref, S)))
            elif q["op"] == "gradient" and g0 is not None:
                st = steady(lambda z: [f(z)], p, st)
                g = np.asarray(g0(p.copy())[0], float).ravel() * st
                base = f(p)
                Q = [[f(p + m * z) - base for m in (-2, -1, 1, 2)] for z in np.diag(st)]
                S = max(np.abs(Q).max(), 1e-3 * len(cs.D) * 1e-2)
                ev.append(dict(op="gradient", d=fxs(g, S), q=[fxs(z, S) for z in Q], tol=1000))
            elif q["op"] == "hessian" and h0 is not None and (cs.mgp or cs.kind == "KRG") and cs.how != "estimated" and cs.ny == 1:
                h, ij, _ = h0(p.copy())
                H = np.zeros((len(p), len(p)))
                H[ij[:, 0], ij[:, 1]] = np.ravel(h); H[ij[:, 1], ij[:, 0]] = np.ravel(h)
                H = H * st[None] * st[:, None]
                st1 = steady(lambda z: np.asarray(g0(z)[0], float).ravel(), p, st)
                H = H / st[None] / st[:, None] * st1[None] * st1[:, None]
                st = st1
                G = lambda z: np.asarray(g0(z)[0], float).ravel() * st
                base = G(p)
                Q = np.array([[G(p + m * z) - base for m in (-2, -1, 1, 2)] for z in np.diag(st)])   # along, step, component
                S = max(np.abs(Q).max(), 1e-6 * len(cs.D) * 1e-2)
                ev.append(dict(op="hessian", d=fxm(H / S), q=[[fxs(Q[a, :, k], S) for a in range(len(p))] for k in range(len(p))], tol=3000))
    return ev


def run(ctx):
    ctx.model_check("Likelihood", {"NTheta": ctx.n(4, 5), "MaxV": 2, "Budget": ctx.n(3, 4)}, ["BestSeen", "AtLeastStart", "NoneOnlyIfAllFail"])
    bs = ctx.generate("LikelihoodGen", {"Depth": 10}, num=ctx.n(220, 1500), depth=14)
    jobs = []
    for i, b in enumerate(bs):
        m = b["mod"]
        key = "%s/%s/%s/%s/%s" % (m["kind"], m["corr"], m["poly"], m["how"], m["opt"])
        jobs.append((key + "-%d" % i, dict(tol=30), (lambda b=b: play(b)), dict(key=key, limit=90)))
    ctx.validate("LikelihoodTrace", parallel(jobs))
