"""C36: kriging through partial least squares (spec/Pls.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c31 import kernel, trend
from harness.c21 import cokriging, corr as cokernel


def directions(X, y, nc):
    """partial least squares of one output on standardised inputs: rotations (nx, nc)"""
    U = (X - X.mean(0)) / X.std(0, ddof=1)
    v = (y - y.mean()) / y.std(ddof=1)
    W, Pm = [], []
    for _ in range(nc):
        w = U.T @ v
        w = w / np.linalg.norm(w)
        t = U @ w
        p = U.T @ t / (t @ t)
        U = U - np.outer(t, p)
        v = v - t * (v @ t) / (t @ t)
        W.append(w); Pm.append(p)
    W, Pm = np.array(W).T, np.array(Pm).T
    return W @ np.linalg.inv(Pm.T @ W)


class PCase:
    def __init__(self, m):
        self.kind = m["kind"].strip()
        self.mf = self.kind.startswith("MF")
        self.nx = m["nx"]
        self.poly = m["poly"].strip()
        self.corr = "squar_exp" if self.kind.endswith("PLSK") else m["corr"]
        self.nc = 1 if self.kind == "GEKPLS" else min(m["nc"], self.nx)
        self.seed = m["seed"]
        self.lim = zoo.limits(self.nx)
        self.idle = m["idle"] - 1 if self.kind in ("KPLS", "GEKPLS") and self.poly == "constant" and 0 < m["idle"] <= self.nx else None
        self.extra = min(m["extra"], self.nx - (self.idle is not None)) if self.kind == "GEKPLS" else 0
        if self.idle is not None and self.nc > self.nx - 1:
            self.nc = self.nx - 1
        self.step = [0.05, 0.1, 0.2][m["step"] - 1]
        self.th = [0.15, 0.4, 1.0, 3.0][m["level"] - 1]
        self.free = not self.mf and m["level"] % 2 == 0
        self.opts = dict(print_global=False, corr=self.corr, poly=self.poly, n_comp=self.nc, theta0=[self.th] * self.nc, theta_bounds=[0.1 if self.kind != "KPLSK" else 1e-3, 20.0])
        if not self.free and self.kind != "KPLSK":
            self.opts["theta_bounds"] = [self.th * (1 - 1e-7), self.th * (1 + 1e-7)]
        if self.mf:
            self.opts["theta0"] = [self.th]
            self.opts["nugget"] = 1e-12
        if self.kind == "GEKPLS":
            self.opts.update(xlimits=self.lim.copy(), extra_points=self.extra, delta_x=self.step)

    def f(self, X, version):
        lo, w = self.lim[:, 0], self.lim[:, 1] - self.lim[:, 0]
        U = (X - lo) / w
        b = np.array([1.0, 0.6, -0.8, 0.4])[:self.nx] * (1 if version == 1 else np.array([0.3, -1.2, 0.5, 1.0])[:self.nx])
        b = b * (1 + 0.1 * np.sin(self.seed + np.arange(self.nx)))
        if self.idle is not None:
            b[self.idle] = 0
        a = np.array([2.0, 1.5, 1.2, 2.5])[:self.nx]
        y = np.sum(b * np.sin(a * U), axis=1) + 0.5 * b[0] * b[1] * U[:, 0] * U[:, 1]
        G = b * a * np.cos(a * U)
        G[:, 0] += 0.5 * b[0] * b[1] * U[:, 1]; G[:, 1] += 0.5 * b[0] * b[1] * U[:, 0]
        return y[:, None], G / w

    def data(self, version):
        n = 9 + 3 * self.nx - (version == 2)
        X = zoo.doe(n, self.nx, self.seed + 13 * version)
        if self.idle is not None and self.kind == "KPLS":     # neither correlated with the output nor with other inputs
            k = self.idle
            B = np.c_[np.ones(n), np.delete(X, k, 1), self.f(X, version)[0]]
            z = X[:, k] - B @ np.linalg.lstsq(B, X[:, k], rcond=None)[0]
            X[:, k] = self.lim[k].mean() + 0.4 * (self.lim[k, 1] - self.lim[k, 0]) * z / np.abs(z).max()
        Y, G = self.f(X, version)
        out = dict(X=X, Y=Y, G=G)
        if self.mf:
            XL = zoo.doe(2 * n, self.nx, self.seed + 17 * version)
            if self.seed % 2:
                XL = np.vstack([X, XL])
            out.update(XL=XL, YL=zoo.low_fi(self.f(XL, version)[0], XL, 1))
        return out

    def fit(self, D, sm=None, kind=None, **over):
        import smt.surrogate_models as S
        import smt.applications as A
        o = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.opts.items()}
        o.update(over)
        kind = kind or self.kind
        if sm is None:
            sm = (getattr(S, kind, None) or getattr(A, kind))(**o)
        if self.mf:
            sm.set_training_values(D["XL"].copy(), D["YL"].copy(), name=0)
        sm.set_training_values(D["X"].copy(), D["Y"].copy())
        if kind == "GEKPLS":
            for k in range(self.nx):
                sm.set_training_derivatives(D["X"].copy(), D["G"][:, k:k + 1].copy(), k)
        np.random.seed(3)
        with Quiet():
            sm.train()
        return sm

    def weights(self, D):
        if self.kind == "GEKPLS":
            g = D["G"] * (self.lim[:, 1] - self.lim[:, 0])
            return np.mean(np.abs(g) / np.linalg.norm(g, axis=1)[:, None], axis=0)[:, None]
        return directions(D["X"], D["Y"][:, 0], self.nc)

    def enriched(self, D):
        """the data with the first-order points"""
        X, Y = D["X"], D["Y"]
        if self.kind != "GEKPLS" or not self.extra:
            return X, Y
        s = self.step * (self.lim[:, 1] - self.lim[:, 0])
        XX, YY = [X], [Y]
        for i in range(len(X)):
            for k in np.argsort(np.abs(D["G"][i] * s))[-self.extra:]:
                x = X[i].copy(); x[k] += s[k]
                XX.append(x[None]); YY.append(Y[i:i + 1] + D["G"][i, k] * s[k])
        return np.vstack(XX), np.vstack(YY)

    def eff(self, D, th):
        w = self.weights(D)
        th = np.broadcast_to(np.ravel(th), (self.nc,)) if len(np.ravel(th)) in (1, self.nc) else None
        if th is None:
            return None
        return (np.abs(w) if self.corr == "abs_exp" else w ** 2).dot(th)

    def likelihood(self, D, eff):
        X, Y = self.enriched(D)
        u = (X - X.mean(0)) / X.std(0, ddof=1); y = (Y - Y.mean(0)) / Y.std(0, ddof=1)
        R = kernel(self.corr, eff, u, u) + 100 * np.finfo(float).eps * np.eye(len(u))
        if np.linalg.cond(R) > 1e9:
            return None
        F = trend(self.poly, u); Ri = np.linalg.inv(R)
        B = np.linalg.solve(F.T @ Ri @ F, F.T @ Ri @ y); e = y - F @ B
        n = len(u)
        return -n * np.log10((e.T @ Ri @ e)[0, 0] / n) - np.linalg.slogdet(R)[1] / np.log(10)

    def reference(self, D, th, P):
        """mean and variance of the declared model, or None when ill conditioned"""
        X, Y = self.enriched(D)
        eff = np.ravel(th) if self.kind == "KPLSK" else self.eff(D, th)
        if eff is None or len(eff) != self.nx:
            return None
        xm, xs, ym, ys = X.mean(0), X.std(0, ddof=1), Y.mean(0), Y.std(0, ddof=1)
        u, y, q = (X - xm) / xs, (Y - ym) / ys, (P - xm) / xs
        R = kernel(self.corr, eff, u, u) + 100 * np.finfo(float).eps * np.eye(len(u))
        if np.linalg.cond(R) > 1e9:
            return None
        L = np.linalg.cholesky(R); F = trend(self.poly, u)
        solve = lambda b: np.linalg.solve(L, b)
        Q, T = np.linalg.qr(solve(F))
        B = np.linalg.solve(T, Q.T @ solve(y)); e = solve(y - F @ B)
        s2 = (e.T @ e)[0, 0] / len(u) * ys[0] ** 2
        r = kernel(self.corr, eff, q, u); f = trend(self.poly, q)
        rt = solve(r.T); U = np.linalg.solve(T.T, f.T - solve(F).T @ rt)
        mean = (f @ B + rt.T @ e) * ys + ym
        var = np.maximum(1 - (rt ** 2).sum(0) + (U ** 2).sum(0), 0) * s2
        self.s2 = s2
        return mean, var[:, None]

    def mfreference(self, D, P):
        eff = np.full(self.nx, self.th) if self.kind == "MFKPLSK" else self.eff(D, [self.th])
        XX = np.vstack([D["XL"], D["X"]]); xo, xs = XX.mean(0), XX.std(0, ddof=1)
        for X in (D["XL"], D["X"]):
            Z = (X - xo) / xs
            if np.linalg.cond(cokernel(self.corr, eff, Z[:, None] - Z[None])) > 1e8:
                return None
        c = dict(theta=100 * eff, corr=self.corr, poly=self.poly, rho="constant")
        y, v, _ = cokriging(c, [(D["XL"], D["YL"]), (D["X"], D["Y"])], P)
        half = cokriging(c, [(D["XL"], D["YL"]), (D["X"], D["Y"])], P, own=0.5)[1]
        return y, v[:, None], half[:, None]


def play(b):
    cs = PCase(b["mod"])
    ev = []
    sm, D, version = None, None, 0
    for q in [dict(op="train", seed=1)] + b["walk"]:
        op = q["op"].strip()
        if op == "train":
            if sm is None or q["seed"] % 2:
                sm = None if q["seed"] % 3 == 0 else sm
                version = 1 + q["seed"] % 2 if version == 0 else 3 - version
            D = cs.data(version)
            sm = cs.fit(D, sm)
            kept = all(np.array_equal(np.asarray(sm.options[k]), np.asarray(v)) for k, v in cs.opts.items()) and \
                same(sm.training_points[None][0][0], D["X"]) and same(sm.training_points[None][0][1], D["Y"])
            ev.append(dict(op="train", res="ok", version=version, kept=bool(kept)))
        elif op == "predict":
            P = np.vstack([zoo.points(4, cs.nx, q["seed"]), zoo.points(2, cs.nx, q["seed"] + 1, margin=0.3), D["X"][q["seed"] % len(D["X"])][None]])
            with Quiet():
                y, v = np.asarray(sm.predict_values(P)), np.asarray(sm.predict_variances(P)).reshape(-1, 1)
            th = getattr(sm, "optimal_theta", None)
            ref = None
            if cs.mf:
                ref = cs.mfreference(D, P)
            elif th is not None:
                ref = cs.reference(D, np.asarray(th, float), P)
            e = dict(op="predict", version=version, known=ref is not None, refy=[], refv=[], refh=[], tol=100)
            sy = float(np.abs(D["Y"]).max()) * 2
            sv = max(D["Y"].var(), np.abs(ref[1]).max() if ref else 0, cs.s2 * 1e-2 if ref and not cs.mf else 0)
            e.update(y=fxm(y, sy), v=fxm(v, sv))
            if ref:
                e.update(refy=fxm(ref[0], sy), refv=fxm(ref[1], sv), refh=fxm(ref[2] if cs.mf else ref[1], sv))
            ev.append(e)
        elif op == "expand" and cs.kind == "GEKPLS":
            th = np.asarray(getattr(sm, "optimal_theta", [cs.th]), float)
            if cs.reference(D, th, D["X"][:1]) is None:
                continue
            i = q["seed"] % len(D["X"])
            s = cs.step * (cs.lim[:, 1] - cs.lim[:, 0])
            P = np.vstack([D["X"][i], D["X"][i] + np.diag(s)])
            y = np.asarray(sm.predict_values(P))[:, 0]
            sc = float(np.abs(D["Y"]).max()) * 2
            ev.append(dict(op="expand", y=fx(y[0], sc), own=fx(D["Y"][i, 0], sc), at=fxs(y[1:], sc), taylor=fxs(D["Y"][i, 0] + D["G"][i] * s, sc),
                           infl=fxs(D["G"][i] * s, sc), tol=50))
        elif op == "idle" and cs.idle is not None:
            P = zoo.points(6, cs.nx, q["seed"], margin=0.1)
            Q = P.copy(); Q[:, cs.idle] = zoo.points(6, cs.nx, q["seed"] + 7, margin=0.1)[:, cs.idle]
            sc = float(np.abs(D["Y"]).max()) * 2
            ev.append(dict(op="idle", a=fxm(sm.predict_values(P), sc), b=fxm(sm.predict_values(Q), sc), tol=20))
        elif op == "weights":
            w = getattr(sm, "coeff_pls", None)
            if w is None or np.shape(w) != (cs.nx, cs.nc):
                continue
            c = cs.weights(D)[:, 0]
            ev.append(dict(op="weights", w=fxs(w[:, 0]), cov=fxs(c / np.abs(c).max()), unit=cs.kind != "GEKPLS", tol=20))
        elif op == "refine" and cs.kind == "KPLSK":
            with Quiet():
                k = cs.fit(D, kind="KPLS")
            tk, tf = np.ravel(getattr(k, "optimal_theta", [])), np.ravel(getattr(sm, "optimal_theta", []))
            if len(tk) != cs.nc or len(tf) != cs.nx:
                continue
            z = cs.eff(D, tk)
            if z.min() < cs.opts["theta_bounds"][0] or z.max() > cs.opts["theta_bounds"][1]:     # no such start
                continue
            a, c = cs.likelihood(D, tf), cs.likelihood(D, z)
            if a is None or c is None:
                continue
            ev.append(dict(op="refine", full=fx(a, 100), projected=fx(c, 100), tol=100))
    return ev


def run(ctx):
    ctx.model_check("Pls", {"G": tlaset(range(5 if ctx.thorough else 4)), "W": tlaset([1, 2, 3] if ctx.thorough else [1, 3]), "MaxExtra": 3}, ["GreedyIsTop", "IdleLast", "EnoughPoints", "Balanced"])
    bs = ctx.generate("PlsGen", {"Depth": 10}, num=ctx.n(220, 1500), depth=14)
    jobs = []
    for i, b in enumerate(bs):
        m = b["mod"]
        cs = PCase(m)
        key = "%s/%s/%s/n%d/c%d/e%d" % (cs.kind, cs.corr, cs.poly, cs.nx, cs.nc, cs.extra)
        jobs.append((key + "-%d" % i, dict(extra=cs.extra), (lambda b=b: play(b)), dict(key=key, limit=90)))
    ctx.validate("PlsTrace", parallel(jobs))
