"""C37: interpolants defined by distances (spec/Radial.tla)."""
from harness.core import *
from harness.scen import parallel


class Case:
    def __init__(self, m):
        self.m = m
        self.kind = m["kind"].strip()
        self.nx, self.ny = m["nx"], m["ny"]
        r = np.random.RandomState(m["seed"])
        self.r = r
        nx = self.nx
        if self.kind == "IDW":
            self.p = [2.0, 4, 2, 1.0, 2.5, 3.7, 7][m["p"] - 1]
            self.opts = dict(p=self.p, print_global=False)
        else:
            d = np.array([1.3, 0.7, 2.0, 1.0])[:nx] * r.uniform(0.7, 1.3, nx) * [0.6, 1.0, 1.5][m["size"] - 1]
            how = m["how"].strip()
            if how == "scalar":
                d[:] = float(d[0])
            self.d0 = d
            self.reg = [1e-10, 0.0, 1e-2][m["reg"] - 1]
            self.opts = dict(d0=float(d[0]) if how == "scalar" else d.tolist() if how == "list" else d.copy(), poly_degree=m["pd"], reg=self.reg, print_global=False)

    def data(self, version):
        r = np.random.RandomState(self.m["seed"] + version)
        n = [6, 11, 25][self.m["size"] - 1] + self.nx - version % 2
        if self.kind == "IDW":                       # on a lattice of step 1/4
            Z = set()
            while len(Z) < n:
                Z.add(tuple(int(v) for v in r.randint(-12 if self.nx > 1 else -30, 13 if self.nx > 1 else 31, self.nx)))
            X = np.array(sorted(Z, key=lambda z: hash(z) % 1009), float) / 4
        else:
            X = r.uniform(-1, 1, (4 * n, self.nx)) * [[2.0, 1.2, 3, 2], [3.0, 2, 4, 3], [5.0, 3, 6, 4]][self.m["size"] - 1][0]
            keep = [0]
            for i in range(1, len(X)):               # apart from each other in the scaled distance
                if np.min(np.sum(((X[keep] - X[i]) / self.d0) ** 2, axis=1)) > 0.2 and len(keep) < n:
                    keep.append(i)
            X = X[keep]
        Y = np.sin(X @ r.uniform(0.5, 1.5, (self.nx, self.ny))) + 0.3 * r.randn(len(X), self.ny) + np.arange(self.ny)
        return X, Y

    def points(self, X, where, seed):
        r = np.random.RandomState(seed)
        i = seed % len(X)
        e = r.randn(2, self.nx); e /= np.linalg.norm(e, axis=1)[:, None]
        if where == "lattice":
            return r.randint(-14, 15, (4, self.nx)) / 4.0
        if where == "data":
            return X[[i, (3 * i + 1) % len(X)]]
        if where in ("near", "nearer"):
            return X[i] + e * (10.0 ** -r.randint(2, 5) if where == "near" else 10.0 ** -r.randint(5, 8))
        if where == "far":
            return X[i] + e * 10.0 ** r.randint(1, 4)
        if where == "between":
            j = (i + 1 + seed % (len(X) - 1)) % len(X)
            return np.array([(X[i] + X[j]) / 2, 0.75 * X[i] + 0.25 * X[j]])
        P = r.uniform(-3, 3, (200, self.nx))         # among many others
        return P


def play(b):
    from smt.surrogate_models import IDW, RBF
    cs = Case(b["mod"])
    sm = {"IDW": IDW, "RBF": RBF}[cs.kind](**{k: (v.copy() if hasattr(v, "copy") else v) for k, v in cs.opts.items()})
    ev, version = [], 0
    for q in [dict(op="train", where="", seed=0)] + b["walk"]:
        op, wh = q["op"].strip(), q["where"]
        if op == "train":
            version += 1
            X, Y = cs.data(version)
            sm.set_training_values(X.copy(), Y.copy())
            with Quiet():
                sm.train()
            ev.append(dict(op="train", ok=True, version=version))
            n = len(X)
            sc = np.abs(Y).max()
            if cs.kind == "RBF":
                deg = cs.opts["poly_degree"]
                poly = lambda P: np.c_[np.ones(len(P)), P][:, :[0, 1, 1 + cs.nx][deg + 1]]
                A = np.exp(-np.sum(((X[:, None] - X[None]) / cs.d0) ** 2, axis=2)) + cs.reg * np.eye(n)
                F = poly(X); k = F.shape[1]
                M = np.block([[A, F], [F.T, np.zeros((k, k))]])
                known = np.linalg.cond(M) < 1e9 and (k == 0 or np.linalg.matrix_rank(F) == k)
                if known:
                    Mi = np.linalg.inv(M)
                    S = Mi @ np.vstack([Y, np.zeros((k, cs.ny))])
            continue
        P = cs.points(X, wh, q["seed"])
        take = range(len(P)) if len(P) < 10 else [0, 77, 199]
        D = P[:, None] - X[None]
        with Quiet():
            if op == "value":
                y = np.asarray(sm.predict_values(P))
            elif op == "slope":
                kx = q["seed"] % cs.nx
                y = np.asarray(sm.predict_derivatives(P, kx))
            else:
                y = np.asarray(sm.predict_output_derivatives(P)[None])
        if cs.kind == "IDW":
            if op == "slope":
                continue
            d2 = np.sum(D ** 2, axis=2)
            for i in take:
                exact = wh in ("lattice", "data") and cs.p in (2, 4)
                e = dict(where=wh, exact=exact, half=int(cs.p) // 2 if exact else 0, d2=[int(round(16 * v)) for v in d2[i]] if exact else [], tol=60)
                m = d2[i].min()
                w = (d2[i] / m) ** (-cs.p / 2) if m > 0 else np.eye(n)[np.argmin(d2[i])]
                e["w"] = [] if exact else fxs(w)
                if op == "value":
                    e.update(op="average", y=fxs(y[i], sc), ys=[fxs(Y[:, j], sc) for j in range(cs.ny)])
                else:
                    e.update(op="share", s=[fxs(y[i, :, j]) for j in range(cs.ny)])
                ev.append(e)
        elif known:
            phi = np.exp(-np.sum((D / cs.d0) ** 2, axis=2)); f = poly(P)
            g = 10.0 / max(np.abs(S).max(), 1e-12) if op != "sens" else 1.0
            if op == "slope":
                phi = phi * (-2 * D[:, :, kx] / cs.d0[kx] ** 2)
                f = np.zeros_like(f)
                if k > 1:
                    f[:, 1 + kx] = 1
            for i in take:
                h = max(1.0, np.abs(phi[i]).max(), np.abs(f[i]).max() if k else 0)
                if op == "sens":
                    s = np.r_[phi[i], f[i]] @ Mi[:, :n]
                    z = max(1.0, np.abs(s).max())
                    ev.append(dict(op="equal", what="not-the-sensitivity", where=wh, a=fxm(y[i].T, z), b=fxm(np.tile(s, (cs.ny, 1)), z), tol=100))
                else:
                    big = n * 10.0 / 900 if n > 60 else 1.0
                    ev.append(dict(op="combination" if op == "value" else "slope", where=wh, y=fxs(y[i] * g / h), phi=fxs(phi[i] / h), c=[fxs(S[:n, j] * g) for j in range(cs.ny)],
                                   f=fxs(f[i] / h), b=[fxs(S[n:, j] * g) for j in range(cs.ny)], tol=200))
    return ev


def run(ctx):
    ctx.model_check("Radial", {"Pos": tlaset(range(9 if ctx.thorough else 6)), "Ys": tlaset(range(4 if ctx.thorough else 3))}, ["Interpolates", "Between", "NearestLeads", "Agree"])
    bs = ctx.generate("RadialGen", {"Depth": 14}, num=ctx.n(220, 1500), depth=18)
    jobs = []
    for i, b in enumerate(bs):
        m = b["mod"]
        cs = Case(m)
        key = "%s/%s" % (cs.kind, "p%g" % cs.p if cs.kind == "IDW" else "d%d/%s/%g" % (m["pd"], m["how"].strip(), cs.reg))
        jobs.append((key + "-%d" % i, dict(kind=cs.kind), (lambda b=b: play(b)), dict(key=key, limit=60)))
    ctx.validate("RadialTrace", parallel(jobs))
