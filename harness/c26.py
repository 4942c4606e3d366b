"""C26: RMT splines (spec/Rmt.tla)."""
from harness.core import *
from harness.scen import parallel

LIM = {1: [[0.0, 1.0]] * 3, 2: [[-2.0, 3.0], [10.0, 10.5], [-1.0, 0.0]], 3: [[-1.0, 1.0], [0.0, 4.0], [2.0, 3.0]], 4: [[100.0, 101.0], [-0.3, 0.2], [0.0, 2.0]]}


def f(X, L, s):
    U = (X - L[:, 0]) / (L[:, 1] - L[:, 0])
    r = np.random.RandomState(s)
    nx = X.shape[1]
    w, a = r.uniform(0.7, 2.2, nx), r.uniform(-1, 1, nx)
    z = U.dot(w) + a[0]
    y = np.sin(2.0 * z) + U.dot(a) + 0.4 * (U[:, 0] - 0.3) ** 2
    d = 2.0 * np.cos(2.0 * z)[:, None] * w + a
    d[:, 0] += 0.8 * (U[:, 0] - 0.3)
    return y, d / (L[:, 1] - L[:, 0])


class World:
    def __init__(self, c):
        self.c = c
        nx = self.nx = c["nx"]
        self.L = np.array(LIM[c["lim"]])[:nx]
        self.w = self.L[:, 1] - self.L[:, 0]
        if c["kind"] == "RMTB":
            self.order = [min(o, 4) if nx > 1 else o for o in c["order"][:nx]]
            self.ctrl = [o + (e if nx < 3 else min(e, 1)) for o, e in zip(self.order, c["extra"][:nx])]
            self.elem = [k - o + 1 for k, o in zip(self.ctrl, self.order)]
            self.deg = [o - 1 for o in self.order]
        else:
            self.elem = [1 + (e if nx == 1 else min(e, 2 if nx == 2 else 1)) for e in c["extra"][:nx]]
            self.deg = [3] * nx
        self.smooth = [1.0] * nx if not c["smooth"] else [0.5, 3.0, 1.0][:nx]
        r = np.random.RandomState(c["seed"])
        n = {1: 9, 2: 14, 3: 20}[nx]
        self.X = self.L[:, 0] + r.uniform(0, 1, (n, nx)) * self.w
        self.X[0] = self.L[:, 0]
        self.X[1] = self.L[:, 1]
        # data that determine the spline everywhere
        ax = [self.L[i, 0] + (np.arange(m) + r.uniform(0.1, 0.9, m)) / m * self.w[i] for i, m in enumerate([2 * e + 2 for e in self.elem])]
        self.Xd = np.stack([g.ravel() for g in np.meshgrid(*ax, indexing="ij")], 1)
        # the inputs whose derivatives are given, in the order they are given
        self.gs = [int(i) for i in r.permutation(nx)][:nx if r.randint(2) else 1 + r.randint(nx)] if c["grad"] else []
        self.cache = {}

    def data(self, s, X):
        ys, ds = zip(*[f(X, self.L, s + 1000 * j) for j in range(self.c["ny"])])
        return np.array(ys).T, np.array(ds).transpose(1, 0, 2)

    def model(self, s, X=None, Y=None, D=None, **over):
        import smt.surrogate_models as S
        c = self.c
        kw = dict(xlimits=self.L.copy(), approx_order=c["p"], energy_weight=10.0 ** c["ew"], min_energy=c["energy"], grad_weight=c["gw"] / 100.0,
                  extrapolate=c["extrap"], smoothness=list(self.smooth), solver=c["solver"] if c["energy"] else "krylov", nonlinear_maxiter=20, print_global=False)
        if c["kind"] == "RMTB":
            kw.update(order=list(self.order), num_ctrl_pts=list(self.ctrl))
        else:
            kw.update(num_elements=list(self.elem))
        kw.update(over)
        key = (s, json.dumps({k: v for k, v in kw.items() if k != "xlimits"}, sort_keys=True, default=str))
        if X is None and key in self.cache:
            return self.cache[key]
        kind = kw.pop("kind", c["kind"])
        if kind != c["kind"]:
            kw.pop("num_elements")
        sm = getattr(S, kind)(**kw)
        own = X is None
        if own:
            X = self.X
            Y, D = self.data(s, X)
        sm.set_training_values(X, Y)
        if D is not None:
            for k in self.gs:
                sm.set_training_derivatives(X, D[:, :, k], k)
        sm.train()
        if own:
            self.cache[key] = sm
        return sm


def do(W, q):
    c, nx = W.c, W.nx
    r = np.random.RandomState(q["seed"])
    k = q["k"] - 1
    op = q["op"]
    if op in ("poly", "joint"):
        sm = W.model(c["seed"])
        d, m = W.deg[k], W.elem[k]
        if op == "joint" and m < 2:
            op = "poly"
        x0 = W.L[:, 0] + r.uniform(0.02, 0.98, nx) * W.w
        cell = W.w[k] / m
        if op == "poly":
            j = r.randint(m)
            h = cell * 0.98 / (d + 3)
            t = W.L[k, 0] + j * cell + 0.01 * cell + h * np.arange(d + 4)
        else:
            j = r.randint(1, m)
            h = cell * 0.99 / max(d, 3)
            t = W.L[k, 0] + j * cell + h * np.arange(-d, 4)
        P = np.repeat(x0[None], len(t), 0)
        P[:, k] = t
        V = sm.predict_values(P)
        V = V - V[min(d, len(t) - 1)]
        yscale = 1.0
        out = []
        for o in range(V.shape[1]):
            sc = max(np.abs(V[:, o]).max(), 1e-7 * yscale)
            out.append(fxs(V[:, o], sc))
        return dict(op=op, s=out, deg=d, tol={1: 20, 2: 60, 3: 150, 4: 500}[d])
    if op == "optimal":
        kw = dict(approx_order=2, solver="lu", min_energy=True)
        X = W.Xd
        Y, D = W.data(c["seed"], X)
        sm, sh = W.model(0, X, Y, D, **kw), W.model(0, X, *W.data(c["seed"] + 1 + q["seed"] % 3, X), **kw)
        G = np.meshgrid(*[W.L[i, 0] + (np.arange(2 * W.elem[i]) + 0.5) / (2 * W.elem[i]) * W.w[i] for i in range(nx)], indexing="ij")
        Q = np.stack([g.ravel() for g in G], 1)
        terms = []
        for o in range(c["ny"]):
            T = []
            for i in range(nx):
                hh = np.zeros(nx)
                hh[i] = 1e-3 * W.w[i] / W.elem[i]
                if True:
                    dd = [(m.predict_derivatives(Q + hh, i)[:, o] - m.predict_derivatives(Q - hh, i)[:, o]) / (2 * hh[i]) for m in (sm, sh)]
                    T.append((10.0 ** c["ew"] * W.smooth[i] / len(Q) * dd[0], dd[1]))
            T.append((sm.predict_values(X)[:, o] - Y[:, o], sh.predict_values(X)[:, o]))
            if c["grad"]:
                for i in W.gs:
                    T.append((c["gw"] / 100.0 / nx * (sm.predict_derivatives(X, i)[:, o] - D[:, o, i]), sh.predict_derivatives(X, i)[:, o]))
            S = max(max(np.abs(a).max() * np.abs(b).max() for a, b in T), 1e-12)
            out = []
            for a, b in T:
                sb = max(np.abs(b).max(), 1e-9)
                out.append(dict(a=fxs(a, S / sb), b=fxs(b, sb)))
            # without energy (or with a negligible one) the misfit itself is rounding
            if max(np.abs(a).max() for a, b in T[-1:]) > 1e-6:
                terms.append(out)
        return dict(op=op, terms=terms)
    if op == "ridge":
        # degree one: the coefficients are the values at the knots
        lam = 10.0 ** r.uniform(-3, 1)
        X = W.Xd
        Y, D = W.data(c["seed"], X)
        ctrl = [2 + r.randint(4) for _ in range(nx)]
        kw = dict(order=[2] * nx, num_ctrl_pts=ctrl, approx_order=2, solver="lu", min_energy=False, regularization_weight=lam, kind="RMTB")
        sm, sh = W.model(0, X, Y, None, **kw), W.model(0, X, W.data(c["seed"] + 1 + q["seed"] % 3, X)[0], None, **kw)
        N = np.stack([g.ravel() for g in np.meshgrid(*[np.linspace(W.L[i, 0], W.L[i, 1], ctrl[i]) for i in range(nx)], indexing="ij")], 1)
        terms = []
        for o in range(c["ny"]):
            T = [(lam * sm.predict_values(N)[:, o], sh.predict_values(N)[:, o]), (sm.predict_values(X)[:, o] - Y[:, o], sh.predict_values(X)[:, o])]
            S = max(max(np.abs(a).max() * np.abs(b).max() for a, b in T), 1e-12)
            terms.append([dict(a=fxs(a, S / np.abs(b).max()), b=fxs(b, np.abs(b).max())) for a, b in T])
        return dict(op=op, terms=terms)
    if op == "edge":
        sm = W.model(c["seed"])
        u = r.uniform(0.05, 0.95, nx)
        h = 10.0 ** -r.uniform(2.5, 5.5) / W.elem[k]
        a = [0.0, 1.0 - h][r.randint(2)]
        P = W.L[:, 0] + np.array([np.where(np.arange(nx) == k, a + t * h, u) for t in (0, 0.5, 1)]) * W.w
        v = sm.predict_values(P)
        d = sm.predict_derivatives(P[1:2], k)[0] * W.w[k]
        st = (P[2, k] - P[0, k]) / W.w[k]
        return dict(op=op, q=[fx((v[2, o] - v[0, o]) / st, max(1e-2, abs(d[o]), abs(v[0, o]))) for o in range(c["ny"])],
                    d=[fx(d[o], max(1e-2, abs(d[o]), abs(v[0, o]))) for o in range(c["ny"])])
    if op == "refuse":
        X = W.X.copy()
        i = r.randint(len(X))
        X[i, k] = W.L[k, 0] - r.uniform(1e-3, 2) * W.w[k] if r.randint(2) else W.L[k, 1] + r.uniform(1e-3, 2) * W.w[k]
        Y, D = W.data(c["seed"], X)
        where = "values"
        def go():
            W.model(0, X, Y, D)
        return dict(op=op, out=attempt(go)[0])
    if op == "outside":
        sm = W.model(c["seed"])
        u = r.uniform(0.05, 0.95, nx)
        for i in range(nx):
            z = r.randint(4)
            u[i] = -r.uniform(0.02, 1.5) if z == 0 else (1 + r.uniform(0.02, 1.5) if z == 1 else u[i])
        if np.all((u > 0) & (u < 1)):
            u[k] = 1 + r.uniform(0.05, 1)
        b = np.clip(u, 0, 1)
        x = (W.L[:, 0] + u * W.w)[None]
        xb = (W.L[:, 0] + b * W.w)[None]
        ext = u != b
        e = dict(op=op, dx=fxs(u - b), v=[], fb=[], gb=[], d=[], dg=[])
        v, fb = sm.predict_values(x)[0], sm.predict_values(xb)[0]
        # derivatives at the boundary point, from just inside along its own axis and exactly
        xin = (W.L[:, 0] + np.clip(u, 1e-12, 1 - 1e-12) * W.w)[None]
        gb = np.array([sm.predict_derivatives(xin, i)[0] * W.w[i] for i in range(nx)]).T
        dx = np.array([sm.predict_derivatives(x, i)[0] * W.w[i] for i in range(nx)]).T
        for o in range(c["ny"]):
            sc = max(np.abs(gb[o]).max() / 10, np.abs(v[o]), np.abs(fb[o]), 1e-3)
            e["v"].append(fx(v[o], sc)); e["fb"].append(fx(fb[o], sc))
            e["gb"].append(fxs(np.where(ext, gb[o], 0.0), sc))
            e["d"].append(fxs(dx[o], sc)); e["dg"].append(fxs(gb[o], sc))
        return e
    if op == "constant":
        cs = r.uniform(-3, 3, c["ny"])
        Y = np.tile(cs, (len(W.Xd), 1))
        sm = W.model(0, W.Xd, Y, np.zeros((len(W.Xd), c["ny"], nx)), min_energy=True, energy_weight=10.0 ** max(c["ew"], -4), approx_order=2, solver="lu")
        P = W.L[:, 0] + r.uniform(-0.3, 1.3, (6, nx)) * W.w
        V = sm.predict_values(P)
        return dict(op=op, c=fxs(cs), v=[fxs(V[:, o]) for o in range(c["ny"])])
    if op == "fit":
        # at most one point in each of some cells: the spline can pass through all of them
        axes = []
        for i in range(nx):
            cells = np.arange(W.elem[i])
            axes.append(W.L[i, 0] + (cells + r.uniform(0.2, 0.8, len(cells))) / W.elem[i] * W.w[i])
        X = np.stack([g.ravel() for g in np.meshgrid(*axes, indexing="ij")], 1)
        exact = not c["grad"]
        if not exact:
            X = W.Xd
        ys, ds = zip(*[f(X, W.L, q["seed"] + 1000 * j) for j in range(c["ny"])])
        Y, D = np.array(ys).T, np.array(ds).transpose(1, 0, 2)
        mis, last = [], None
        for ew in (1.0, 1e-2, 1e-4, 1e-7):
            sm = W.model(0, X, Y, D, energy_weight=ew, min_energy=True, approx_order=2, solver="lu")
            res = sm.predict_values(X) - Y
            tot = (res ** 2).sum(0)
            if c["grad"]:
                for i in W.gs:
                    tot = tot + c["gw"] / 100.0 / nx * ((sm.predict_derivatives(X, i) - D[:, :, i]) ** 2).sum(0)
            mis.append(tot)
            last = res
        mis = np.array(mis)
        return dict(op=op, misfit=[fxs(mis[:, o], max(mis[0, o], 1e-3)) for o in range(c["ny"])], exact=exact, last=[fxs(last[:, o]) for o in range(c["ny"])])


def play(b):
    W = World(b["cfg"])
    ev = []
    for q in b["walk"]:
        res, e = attempt(lambda: do(W, q))
        if res != "ok":
            e = dict(op=q["op"])
            do(W, q)
        ev.append(dict(e, res=res))
    return ev


def run(ctx):
    ctx.model_check("Rmt", {"R": ctx.n(1, 2), "Deg": 3}, ["MaxExact", "LeftIsPoly", "C1Exact", "C1Accepts", "C1Rejects"])
    ctx.model_check("Rmt", {"R": 2, "Deg": 2}, ["MaxExact", "LeftIsPoly"], label="Rmt-quadratic")
    bs = ctx.generate("RmtGen", {"Depth": 10}, num=ctx.n(150, 1500), depth=14)
    jobs = [("%s-%d" % (b["cfg"]["kind"], i), b["cfg"], (lambda b=b: play(b)), dict(key=b["cfg"]["kind"], limit=100)) for i, b in enumerate(bs)]
    ctx.validate("RmtTrace", parallel(jobs))
