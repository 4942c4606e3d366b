"""C31: noise in kriging (spec/Noise.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo


def kernel(kind, th, A, B):
    d = np.abs(A[:, None, :] - B[None, :, :])
    if kind == "squar_exp":
        return np.exp(-np.sum(th * d ** 2, axis=2))
    if kind == "abs_exp":
        return np.exp(-np.sum(th * d, axis=2))
    if kind == "matern32":
        z = np.sqrt(3.0) * th * d
        return np.prod((1 + z) * np.exp(-z), axis=2)
    z = np.sqrt(5.0) * th * d
    return np.prod((1 + z + z ** 2 / 3.0) * np.exp(-z), axis=2)


def trend(poly, X):
    c = [np.ones(len(X))]
    if poly != "constant":
        c += [X[:, k] for k in range(X.shape[1])]
    if poly == "quadratic":
        c += [X[:, k] * X[:, l] for k in range(X.shape[1]) for l in range(k, X.shape[1])]
    return np.array(c).T


class Case:
    """the data, the declared noise and the options of one scenario"""
    def __init__(self, m):
        self.m = m
        self.kind = m["kind"]
        self.nx = max(2, m["nx"]) if self.kind != "KRG" else m["nx"]
        self.ny = m["ny"]
        self.corr = m["corr"] if self.kind == "KRG" else "squar_exp" if self.kind == "KPLSK" or m["corr"] != "abs_exp" else "abs_exp"
        self.poly = m["poly"]
        how = self.how = m["how"]
        r = np.random.RandomState(m["seed"])
        n = 7 + 3 * self.nx + (4 * self.nx if self.poly == "quadratic" else 0)
        self.D = zoo.doe(n, self.nx, m["seed"])                # distinct points
        Y, _ = zoo.f_smooth(self.D, self.ny)
        lev = [0.02, 0.06, 0.2, 0.5][m["level"] - 1]
        self.opts = dict(print_global=False, corr=self.corr, poly=self.poly, hyper_opt=m["opt"], theta_bounds=[0.05, 20.0], theta0=[0.5])
        if self.kind != "KRG":
            self.opts["n_comp"] = 1 + (m["rep"] % 2 if self.nx > 2 else 0)
            self.opts["theta0"] = [0.5] * self.opts["n_comp"]
        self.opts["theta0"] = self.opts["theta0"] if self.kind != "KRG" else [0.5] * self.nx
        self.exact = []
        if how == "repeated":
            k = r.randint(1, 2 + m["rep"], size=n)
            k[:3] = [2, 3, 1]
            if m["rep"] == 1:
                k = np.full(n, 3)
            idx = np.repeat(np.arange(n), k)
            idx = idx[r.permutation(len(idx))]
            self.X = self.D[idx].copy()
            self.Y = Y[idx] + np.sqrt(lev) * 0.5 * r.randn(len(idx), self.ny)
            self.idx = idx
            single = lev if m["rep"] % 2 else 0.5 * lev
            self.opts.update(eval_noise=True, use_het_noise=True, noise0=[single])
            if m["level"] == 4 and m["rep"] > 2:        # nothing said about points observed once
                single = 0.0
                del self.opts["noise0"]
            ys = self.Y.std(axis=0, ddof=1)
            self.y = np.array([self.Y[idx == i].mean(axis=0) for i in range(n)])
            N = []
            for i in range(n):
                o = self.Y[idx == i] / ys
                N.append(np.mean(o.var(axis=0, ddof=1)) / len(o) if len(o) > 1 else single)
            self.N = np.array(N)
        else:
            self.X, self.idx = self.D.copy(), np.arange(n)
            self.Y = Y + 0.2 * r.randn(n, self.ny) * (how == "estimated")
            self.y = self.Y
            if how == "estimated":
                self.opts.update(eval_noise=True, noise0=[lev], noise_bounds=[[1e-2, 3.0], [0.1, 0.7], [1e-6, 1.0], [5e-2, 1e2]][m["rep"] - 1])
                self.N = None
                if m["level"] == 3:
                    self.opts["noise0"] = [0]
                elif m["level"] == 4:
                    del self.opts["noise0"]
            elif how == "single":       # pointwise noise asked for, but every point observed once
                self.opts.update(eval_noise=True, use_het_noise=True)
                self.N = np.zeros(n)
                self.exact = list(range(n))
            elif how == "given":
                self.opts.update(noise0=[lev])
                self.N = np.full(n, lev)
            else:
                self.N = lev * (0.5 + r.rand(n))
                if how == "negligible":
                    self.exact = [int(i) for i in r.permutation(n)[:3]]
                    self.N[self.exact] = [0.0, 0.0, 1e-14]
                self.opts.update(use_het_noise=True, noise0=self.N.tolist() if m["rep"] % 2 else self.N.copy())
        self.xm, self.xs = self.X.mean(axis=0), self.X.std(axis=0, ddof=1)
        self.ym, self.ys = self.Y.mean(axis=0), self.Y.std(axis=0, ddof=1)

    def u(self, X):
        return (X - self.xm) / self.xs

    def fit(self, perm=None, **over):
        import smt.surrogate_models as S
        o = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.opts.items()}
        o.update(over)
        X, Y = self.X.copy(), self.Y.copy()
        if perm is not None:
            X, Y = X[perm], Y[perm]
            if self.how in ("perpoint", "negligible"):
                o["noise0"] = np.asarray(o["noise0"])[perm]
        sm = getattr(S, self.kind)(**o)
        sm.set_training_values(X, Y)
        np.random.seed(3)
        with Quiet():
            sm.train()
        return sm


def theta_of(cs, sm):
    """length scales in the standardised inputs, or None when they cannot be told"""
    th = np.asarray(sm.optimal_theta, float).ravel()
    if cs.kind == "KPLS":
        w = getattr(sm, "coeff_pls", None)
        if w is None or len(th) != np.shape(w)[1]:
            return None
        return (np.abs(w) if cs.corr == "abs_exp" else np.asarray(w) ** 2).dot(th)
    return th if len(th) == cs.nx else None


def play(b):
    cs = Case(b["mod"])
    ev = []
    sm, th, N, g0 = None, None, None, 1.0
    F = trend(cs.poly, cs.u(cs.D))
    for q in [dict(op="train", seed=0), dict(op="fit", seed=0)] + b["walk"]:
        if q["op"] == "train":
            o0 = {k: (np.array(v) if hasattr(v, "copy") else v) for k, v in cs.opts.items()}
            X0, Y0 = cs.X.copy(), cs.Y.copy()
            sm = cs.fit() if sm is None or q["seed"] % 2 else sm
            if sm is not None and q["seed"] and not q["seed"] % 2:
                np.random.seed(3)
                with Quiet():
                    sm.train()
            on = np.asarray(sm.optimal_noise, float).ravel()
            kept = all(np.array_equal(np.asarray(o0[k]), np.asarray(sm.options[k])) for k in ("noise0", "theta0", "eval_noise", "use_het_noise") if k in o0) and same(X0, cs.X) and same(Y0, cs.Y)
            e = dict(op="train", res="ok", kept=bool(kept))
            if cs.how == "estimated":
                lo, hi = np.log10(cs.opts["noise_bounds"])
                e.update(logn=fxs(np.log10(np.maximum(on, 1e-300)), 10), lo=fx(lo, 10), hi=fx(hi, 10))
                N = np.full(len(cs.D), on[0]) if len(on) == 1 else None
            else:
                N = cs.N
                if cs.how in ("repeated", "single"):        # the code orders the distinct points in its own way
                    e["noise"] = fxs(np.sort(on))
                else:
                    e["noise"] = fxs(np.full(len(cs.D), on[0]) if len(on) == 1 else on)
            th = theta_of(cs, sm)
            ev.append(e)
        elif q["op"] == "fit":
            res, m = attempt(sm.predict_values, cs.D.copy())
            e = dict(op="fit", res=res)
            if res == "ok":
                inf = N is not None and N.min() > 5e-3 and np.shape(m) == cs.y.shape and bool(np.isfinite(m).all())
                z = (cs.y - m) / cs.ys
                g = (z / N[:, None]) if inf else np.zeros_like(cs.y)
                g0 = max(np.abs(g).max(), np.abs((cs.y - cs.ym) / cs.ys).max(), 1.0) / 10.0
                gg = g.T / g0
                e.update(informative=bool(inf), m=fxm((m - cs.ym) / cs.ys), y=fxm((cs.y - cs.ym) / cs.ys), g=fxm(gg), f=fxm(F.T), exact=[i + 1 for i in cs.exact], itol=20)
            ev.append(e)
        elif q["op"] == "line":
            r = np.random.RandomState(q["seed"])
            a, d = zoo.points(2, cs.nx, q["seed"], margin=0.1)
            d = (d - a) / 6.0
            P = np.array([a + t * d for t in range(6)])
            if q["seed"] % 3 == 0:              # through a training point
                P = P - P[2] + cs.D[q["seed"] % len(cs.D)]
            res, m = attempt(sm.predict_values, P)
            if th is None:
                continue
            e = dict(op="line", res=res)
            if res == "ok":
                e.update(m=fxm(((m - cs.ym) / cs.ys).T / g0), r=fxm(kernel(cs.corr, th, cs.u(P), cs.u(cs.D))))
            ev.append(e)
        elif q["op"] == "variance":
            P = np.vstack([zoo.points(3, cs.nx, q["seed"], margin=0.2), cs.D[q["seed"] % len(cs.D)][None]])
            res, v = attempt(sm.predict_variances, P)
            known = th is not None and N is not None
            e = dict(op="variance", res=res, known=bool(known), ref=[])
            if res == "ok":
                e["v"] = fxm(v, 1.0)
                if known:
                    R = kernel(cs.corr, th, cs.u(cs.D), cs.u(cs.D)) + np.diag(N + (0 if cs.how == "estimated" else 100 * np.finfo(float).eps))
                    if np.linalg.cond(R) > 1e9:
                        e["known"] = False
                    Ri = np.linalg.inv(R)
                    y = (cs.y - cs.ym) / cs.ys
                    B = np.linalg.solve(F.T @ Ri @ F, F.T @ Ri @ y)
                    e_ = y - F @ B
                    s2 = np.einsum("ij,ik,kj->j", e_, Ri, e_) / len(y) * cs.ys ** 2
                    rq = kernel(cs.corr, th, cs.u(P), cs.u(cs.D)); fq = trend(cs.poly, cs.u(P))
                    uq = fq - rq @ Ri @ F
                    k = 1 - np.einsum("ij,jk,ik->i", rq, Ri, rq) + np.einsum("ij,jk,ik->i", uq, np.linalg.inv(F.T @ Ri @ F), uq)
                    ref = np.maximum(k, 0)[:, None] * s2[None]
                    sc = np.maximum(ref.max(axis=0), s2)
                    e["v"] = fxm(np.asarray(v) / sc); e["ref"] = fxm(ref / sc)
            ev.append(e)
        else:
            # the same hyperparameters for both orders: bounds around the trained ones
            if cs.kind == "KPLSK" or cs.how == "estimated" or th is None:
                continue
            perm = np.random.RandomState(q["seed"]).permutation(len(cs.X))
            t0 = float(np.random.RandomState(q["seed"]).uniform(0.2, 2))
            pin = dict(theta_bounds=[t0 * (1 - 1e-8), t0 * (1 + 1e-8)], theta0=[t0] * len(cs.opts["theta0"]), hyper_opt="TNC")
            P = zoo.points(5, cs.nx, q["seed"], margin=0.1)
            with Quiet():
                A = cs.fit(**pin); B = cs.fit(perm, **pin)
                ta, tb = np.ravel(A.optimal_theta), np.ravel(B.optimal_theta)
                a = np.hstack([(A.predict_values(P) - cs.ym) / cs.ys, A.predict_variances(P) / cs.ys ** 2])
                b_ = np.hstack([(B.predict_values(P) - cs.ym) / cs.ys, B.predict_variances(P) / cs.ys ** 2])
            s = max(1.0, np.abs(a).max())
            ev.append(dict(op="order", res="ok", a=fxm(a / s), b=fxm(b_ / s), tol=40))
    return ev


def run(ctx):
    ctx.model_check("Noise", {"Corrs": tlaset([0, 1, 2, 3] if ctx.thorough else [0, 1, 3]), "Noises": tlaset([2, 4, 6] if ctx.thorough else [2, 6]), "Ys": tlaset(range(ctx.n(3, 4)))}, ["MergeRepeats", "Exact", "Residuals"])
    bs = ctx.generate("NoiseGen", {"Depth": 10}, num=ctx.n(220, 1500), depth=14)
    jobs = []
    for i, b in enumerate(bs):
        m = b["mod"]
        cs = Case(m)
        noise = [] if cs.N is None else fxs(np.sort(cs.N) if cs.how in ("repeated", "single") else cs.N)
        key = "%s/%s/%s/%s/%s" % (m["kind"], cs.corr, m["poly"], m["how"], m["opt"])
        jobs.append((key + "-%d" % i, dict(how=m["how"], poly=m["poly"], noise=noise, tol=300, vtol=300), (lambda b=b: play(b)), dict(key=key, limit=90)))
    ctx.validate("NoiseTrace", parallel(jobs))
