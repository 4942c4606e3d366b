"""C35: the marginal Gaussian process (spec/Mgp.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c31 import trend


class Gp:
    """kriging with a correlation of the projections on the columns of A, in standardised inputs and outputs"""
    def __init__(self, X, Y, poly, nc, var):
        self.xm, self.xs = X.mean(axis=0), X.std(axis=0, ddof=1)
        self.ym, self.ys = Y.mean(), Y.std(ddof=1)
        self.u, self.y = (X - self.xm) / self.xs, (Y.ravel() - self.ym) / self.ys
        self.poly, self.nc, self.var = poly, nc, var
        self.F = trend(poly, self.u)

    def k(self, th, a, b):
        A = np.asarray(th, float).reshape(self.nc, -1).T
        return np.exp(-0.5 * np.sum((a[:, None] - b[None]).dot(A) ** 2, axis=2))

    def fit(self, th):
        n = len(self.u)
        R = self.k(th, self.u, self.u) + np.eye(n) * 100 * np.finfo(float).eps
        self.cond = np.linalg.cond(R)
        Ri = np.linalg.inv(R)
        G = self.F.T @ Ri @ self.F
        B = np.linalg.solve(G, self.F.T @ Ri @ self.y)
        e = self.y - self.F @ B
        s2 = e @ Ri @ e / n
        return Ri, G, B, e, s2, R

    def likelihood(self, th):
        Ri, G, B, e, s2, R = self.fit(th)
        return -len(self.u) * np.log10(s2) - np.linalg.slogdet(R)[1] / np.log(10) - np.sum(np.asarray(th) ** 2) / self.var

    def slope(self, th):
        """the gradient of the likelihood"""
        Ri, G, B, e, s2, R = self.fit(th)
        A = np.asarray(th, float).reshape(self.nc, -1).T
        D = self.u[:, None] - self.u[None]
        T = D.dot(A)
        c = Ri @ e
        g = np.zeros((self.nc, len(A)))
        for k in range(self.nc):
            for j in range(len(A)):
                dR = -R * D[:, :, j] * T[:, :, k]
                g[k, j] = (c @ dR @ c / s2 - np.sum(Ri * dR)) / np.log(10)
        return g.ravel() - 2 * np.asarray(th) / self.var

    def at(self, th, X):
        Ri, G, B, e, s2, R = self.fit(th)
        q = (X - self.xm) / self.xs
        r = self.k(th, q, self.u)
        F = trend(self.poly, q)
        m = F @ B + r @ Ri @ e
        w = F - r @ Ri @ self.F
        v = s2 * (1 - np.sum(r @ Ri * r, axis=1) + np.sum(w @ np.linalg.inv(G) * w, axis=1))
        return m * self.ys + self.ym, v * self.ys ** 2


def play(b):
    import smt.surrogate_models as S
    m = b["mod"]
    nx, nc, poly = m["nx"], m["nc"], m["poly"]
    r = np.random.RandomState(m["seed"])
    n = 6 + 2 * nx + 2 * nc
    X = zoo.doe(n, nx, m["seed"])
    xs = X.std(axis=0, ddof=1)
    A = r.randn(nx, nc)
    A /= np.linalg.norm(A, axis=0)
    t = (X - X.mean(axis=0)) / xs @ A
    f = 1.3 + 0.7 * (m["rep"] // 2)
    Y = np.sin(f * t).sum(axis=1) + 0.3 * (t ** 2).sum(axis=1) + [0.05, 0.2][m["rep"] % 2] * np.sin(3 * X[:, 0])
    Y = (Y * [1.0, 40.0, 0.02, 3.0][m["level"] - 1] + [0.0, 5.0][m["rep"] % 2]).reshape(-1, 1)
    var = [1.25, 0.5][m["rep"] // 3]

    def fit():
        sm = S.MGP(print_global=False, n_comp=nc, poly=poly, theta0=[0.3], prior=dict(mean=[0.0], var=var))
        sm.set_training_values(X.copy(), Y.copy())
        np.random.seed(3)
        with Quiet():
            sm.train()
        return sm
    sm = fit()
    th = np.asarray(sm.optimal_theta, float).ravel()
    gp = Gp(X, Y, poly, nc, var)
    gp.fit(th)
    if gp.cond > 1e8:
        return []
    Sy = 4 * np.ptp(Y)
    # covariance of the hyperparameters, by differences of the likelihood
    d = len(th)

    def hessian(h):
        E = np.eye(d) * h
        Q = np.array([gp.slope(th + x) - gp.slope(th - x) for x in E]) / (2 * h)
        return (Q + Q.T) / 2
    H, H2 = hessian(1e-4), hessian(2e-4)
    H = (4 * H - H2) / 3
    w = np.linalg.eigvalsh(-H)
    known = bool(w.min() > 1e-3 * w.max() and w.min() > 1e-3 and np.abs(H - H2).max() < 0.01 * w.min())
    C = np.linalg.cholesky(-H) if known else None
    Ah = (th.reshape(nc, nx) / gp.xs).T       # projection in the units of the inputs
    bounds = zoo.limits(nx)
    inside = lambda k, q: bounds[:, 0] + (bounds[:, 1] - bounds[:, 0]) * q.rand(k, nx)
    ev = []
    for q in b["walk"]:
        g = np.random.RandomState(q["seed"])
        k = q["m"]
        P = inside(k, g)
        if q["op"] in ("values", "variances", "roundtrip"):
            u = sm.get_u_from_x(P)
            lift = sm.get_x_from_u(u)
        if q["op"] == "values":
            ref = gp.at(th, P)[0]
            c = gp.ym
            lu = np.ravel(sm.predict_values(lift)); au = np.ravel(sm.predict_values(u))
            Sl = max(Sy, np.abs(lu - c).max())
            ev.append(dict(op="values", atx=fxs(np.ravel(sm.predict_values(P)) - c, Sy), ref=fxs(ref - c, Sy), atu=fxs(au - c, Sl), lift=fxs(lu - c, Sl)))
        elif q["op"] == "variances":
            v, s = (np.ravel(z) for z in sm.predict_variances(P, both=True))
            one = np.ravel(sm.predict_variances(P))
            uv, us = (np.ravel(z) for z in sm.predict_variances(u, both=True))
            lv, ls = (np.ravel(z) for z in sm.predict_variances(lift, both=True))
            ref = gp.at(th, P)[1]
            Sv = 2 * max(v.max(), s.max(), 1e-6 * Sy ** 2)
            Sl = 2 * max(lv.max(), ls.max(), 1e-6 * Sy ** 2)
            Z = np.zeros((k, 0)); ZZ = Z
            ok = ref > 1e-4 * Sv
            if known:
                e = np.eye(d) * 1e-4
                D = [[(a - b_) / 2e-4 for a, b_ in zip(gp.at(th + z, P), gp.at(th - z, P))] for z in e]
                Z = np.linalg.solve(C, np.array([x[0] for x in D])).T / np.sqrt(Sv)
                ZZ = np.linalg.solve(C, np.array([x[1] for x in D])).T / np.sqrt(Sv * np.where(ok, ref, np.inf))[:, None]
            ev.append(dict(op="variances", v=fxs(v, Sv), s=fxs(s, Sv), alone=fxs(one, Sv), ref=fxs(ref, Sv), uv=fxs(uv, Sl), us=fxs(us, Sl), lv=fxs(lv, Sl), ls=fxs(ls, Sl),
                           known=[known and bool(x) for x in ok], z=fxm(Z), zz=fxm(ZZ)))
        elif q["op"] == "roundtrip":
            Su = max(1.0, np.abs(u).max()) * 4
            a = inside(k, g)
            ev.append(dict(op="roundtrip", u=fxm(u / Su), back=fxm(sm.get_u_from_x(lift) / Su), u2=fxm(sm.get_u_from_x(P + 2 * a) / Su),
                           sum=fxm((u + 2 * sm.get_u_from_x(a)) / Su)))
        elif q["op"] == "slide" and poly == "constant":
            # directions the model does not see
            z = g.randn(k, nx)
            Q_, _ = np.linalg.qr(Ah)
            z = z - z @ Q_ @ Q_.T
            B = P + z
            va, vb = (np.ravel(sm.predict_variances(x, both=True)[1]) for x in (P, B))
            ev.append(dict(op="slide", v=fxs(np.ravel(sm.predict_values(P)) - gp.ym, Sy), slid=fxs(np.ravel(sm.predict_values(B)) - gp.ym, Sy),
                           w=fxs(va, Sy ** 2), wslid=fxs(vb, Sy ** 2)))
        elif q["op"] == "alone":
            v = np.ravel(sm.predict_values(P)); w_ = np.ravel(sm.predict_variances(P))
            Sv = 2 * max(w_.max(), 1e-6 * Sy ** 2)
            ev.append(dict(op="alone", v=fxs(v - gp.ym, Sy), one=fxs([np.ravel(sm.predict_values(x[None]))[0] - gp.ym for x in P], Sy),
                           w=fxs(w_, Sv), wone=fxs([np.ravel(sm.predict_variances(x[None]))[0] for x in P], Sv)))
        elif q["op"] == "data":
            ev.append(dict(op="data", v=fxs(np.ravel(sm.predict_values(X)) - gp.ym, Sy), y=fxs(Y.ravel() - gp.ym, Sy), w=fxs(np.ravel(sm.predict_variances(X)), Sy ** 2)))
        elif q["op"] == "refused":
            for f in (sm.predict_values, sm.predict_variances):
                for w_ in {nx + 1, nc + 1} - {nx, nc}:
                    try:
                        f(g.rand(2, w_)); res = "ok"
                    except ValueError:
                        res = "ValueError"
                    except Exception as e_:
                        res = type(e_).__name__
                    ev.append(dict(op="refused", res=res))
        elif q["op"] == "retrain":
            sm2 = fit()
            ev.append(dict(op="retrain", v=fxs(np.ravel(sm2.predict_values(P)) - gp.ym, Sy), ref=fxs(np.ravel(sm.predict_values(P)) - gp.ym, Sy)))
    return ev


def run(ctx):
    ctx.model_check("Mgp", {"Coords": tlaset([0, 1, 3]), "Moves": ctx.n(2, 4)}, ["Unseen", "Lifted"])
    bs = ctx.generate("MgpGen", {"Depth": 10}, num=ctx.n(160, 1200), depth=14)
    jobs = []
    for i, b in enumerate(bs):
        m = b["mod"]
        key = "MGP/%s/x%dc%d/level%d" % (m["poly"], m["nx"], m["nc"], m["level"])
        jobs.append((key + "-%d" % i, dict(tol=60, vtol=60, mtol=3000), (lambda b=b: play(b)), dict(key=key, limit=90)))
    ctx.validate("MgpTrace", parallel(jobs))
