"""C38: noise in multi-fidelity kriging (spec/MfNoise.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c21 import corr, basis


class Case:
    def __init__(self, m):
        self.m = m
        self.how = m["how"].strip()
        self.corr, self.poly, self.rho = m["corr"].strip(), m["poly"].strip(), m["rho"].strip()
        self.nx, self.nl, self.seed = m["nx"], m["nl"], m["seed"]
        self.lev = [0.02, 0.08, 0.25, 0.6][m["level"] - 1]
        self.th = [0.3, 1.0, 4.0][m["th"] - 1]
        self.declared = [self.lev * f for f in (0.5, 1.0, 2.0)][:self.nl]
        o = dict(print_global=False, corr=self.corr, poly=self.poly, rho_regr=self.rho, theta0=[self.th], hyper_opt=m["opt"].strip(),
                 theta_bounds=[self.th * (1 - 1e-7), self.th * (1 + 1e-7)], nugget=1e-12)
        if self.how == "single":                   # one number for all levels
            o["noise0"] = [self.lev]
            self.declared = [self.lev] * self.nl
        elif self.how == "given":
            o["noise0"] = [[v] for v in self.declared] if self.seed % 2 else list(self.declared)
        elif self.how in ("repeated", "optimrep"):
            o.update(eval_noise=True, use_het_noise=True, noise0=[[v] for v in self.declared])
            if m["level"] == 1:
                del o["noise0"]
                self.declared = [0.0] * self.nl
        elif self.how in ("estimated", "optim"):
            o.update(eval_noise=True, noise0=[[v] for v in self.declared], noise_bounds=[[1e-2, 3.0], [0.05, 0.7], [1e-6, 1.0], [2e-2, 1e2]][m["level"] - 1])
        if self.how.startswith("optim"):
            o["optim_var"] = True
        self.opts = o

    def data(self, version):
        """per level: distinct points, owners of the observations, outputs"""
        r = np.random.RandomState(1000 * version + self.seed)
        out = []
        n = 6 + 3 * self.nx + (2 if self.poly == "linear" else 0) + (self.nx if self.rho == "linear" else 0)
        base = zoo.doe(n * 2 ** (self.nl - 1), self.nx, self.seed + version)
        for k in range(self.nl):
            m = n * 2 ** (self.nl - 1 - k)
            D = base[:m] if self.m["nested"] else zoo.doe(m, self.nx, self.seed + 31 * k + version)
            Y = zoo.f_smooth(D)[0]
            if k < self.nl - 1:
                Y = zoo.low_fi(Y, D, self.nl - 1 - k)
            idx = np.arange(m)
            if self.how in ("repeated", "optimrep"):
                rep = r.randint(1, 4, m)
                idx = np.repeat(idx, rep)
                idx = idx[r.permutation(len(idx))]
            amp = 0.3 if self.how in ("repeated", "optimrep", "estimated", "optim") else 0.05
            Yo = Y[idx] + amp * r.randn(len(idx), 1)
            out.append((D, idx, D[idx], Yo))
        if self.how == "perpoint":
            self.pp = [self.lev * (0.3 + r.rand(len(d[0]))) for d in out]
            self.opts.update(use_het_noise=True, noise0=[p.tolist() if k % 2 else p.copy() for k, p in enumerate(self.pp)])
        return out


def cokriging(cs, data, noise, P):
    """means and variances of all the levels (columns); data: per level (distinct points, standardisation data, merged outputs)"""
    xo, xs, yo, ys = data["std"]
    Q = (P - xo) / xs
    mean, var, chain, worst = [], [], [], 0
    for k, (X, Y) in enumerate(data["lv"]):
        Z, y = (X - xo) / xs, (Y - yo) / ys
        R = corr(cs.corr, cs.th, Z[:, None] - Z[None]) + np.diag(noise[k] + 1e-12)
        worst = max(worst, np.linalg.cond(R))
        below = chain[-1] if chain else None

        def F(T, below=below):
            f = basis(cs.poly, T)
            return np.hstack([basis(cs.rho, T) * below(T), f]) if below else f
        Fx = F(Z); Ri = np.linalg.inv(R)
        A = Fx.T @ Ri @ Fx
        worst = max(worst, np.linalg.cond(A))
        V = np.linalg.inv(A); b = V @ (Fx.T @ Ri @ y)
        g = Ri @ (y - Fx @ b)
        s2 = ((y - Fx @ b).T @ g)[0, 0] / (len(Z) - Fx.shape[1])
        chain.append(lambda T, F=F, b=b, g=g, Z=Z: F(T) @ b + corr(cs.corr, cs.th, T[:, None] - Z[None]) @ g)
        r = corr(cs.corr, cs.th, Q[:, None] - Z[None])
        u = F(Q) - r @ Ri @ Fx
        v = s2 * (1 - np.sum(r @ Ri * r, axis=1) + np.sum(u @ V * u, axis=1))
        if below:
            q = basis(cs.rho, Q).shape[1]; G = basis(cs.rho, Q)
            v = v + np.sum(G @ (s2 * V[:q, :q] + b[:q] @ b[:q].T) * G, axis=1) * var[-1]
        mean.append(chain[-1](Q)[:, 0]); var.append(np.maximum(v, 0))
    return np.array(mean).T * ys + yo, np.array(var).T * ys ** 2, worst


def play(b):
    from smt.applications import MFK
    cs = Case(b["mod"])
    ev, sm, version = [], None, 0
    nl = cs.nl
    for q in [dict(op="train", seed=0)] + b["walk"]:
        op = q["op"].strip()
        if op == "train":
            if version and q["seed"] % 2:
                fresh = False
            else:
                fresh = True
                version += 1
            data = cs.data(version)
            if sm is None or q["seed"] % 3 == 0 or cs.how == "perpoint":
                sm = MFK(**{k: ([np.array(z) if hasattr(z, "copy") and not isinstance(z, list) else z for z in v] if isinstance(v, list) else v) for k, v in cs.opts.items()})
            for k in range(nl):
                kw = dict(name=k) if k < nl - 1 else {}
                sm.set_training_values(data[k][2].copy(), data[k][3].copy(), **kw)
            o0 = {k: repr(sm.options[k]) for k in cs.opts}
            np.random.seed(3)
            with Quiet():
                sm.train()
            tp = sm.training_points
            kept = all(o0[k] == repr(sm.options[k]) for k in o0) and all(
                same(tp[k if k < nl - 1 else None][0][0], data[k][2]) and same(tp[k if k < nl - 1 else None][0][1], data[k][3]) for k in range(nl))
            ev.append(dict(op="train", version=version, kept=bool(kept)))
            XX = np.vstack([d[2] for d in data]); YY = np.vstack([d[3] for d in data])
            std = XX.mean(0), XX.std(0, ddof=1), YY.mean(), YY.std(ddof=1)
            lv, noise = [], []
            seen = getattr(sm, "optimal_noise_all", None)
            for k, (D, idx, X, Y) in enumerate(data):
                if cs.how in ("repeated", "optimrep"):
                    groups = [Y[idx == i, 0] for i in range(len(D))]
                    lv.append((D, np.array([g.mean() for g in groups])[:, None]))
                    v = np.array([(g / std[3]).var(ddof=1) / len(g) if len(g) > 1 else cs.declared[k] for g in groups])
                    noise.append(v)
                    if seen is not None and cs.how == "repeated":
                        order = np.lexsort(((D - std[0]) / std[1]).T[::-1])
                        s = np.ravel(seen[k])
                        ob = [[fx(z, std[3]) for z in groups[i] - groups[i].mean()] for i in order]
                        if np.abs(v).max() < 15:
                            ev.append(dict(op="noise", v=fxs(s), obs=ob, declared=fx(cs.declared[k])))
                elif cs.how in ("estimated", "optim"):
                    lv.append((D, Y))
                    s = np.ravel(seen[k]) if seen is not None else None
                    noise.append(np.full(len(D), s[0]) if s is not None and len(s) == 1 else None)
                    if cs.how == "estimated" and s is not None:
                        lo, hi = np.log10(cs.opts["noise_bounds"])
                        ev.append(dict(op="bounds", logn=fxs(np.log10(np.maximum(s, 1e-300)), 10), lo=fx(lo, 10), hi=fx(hi, 10)))
                else:
                    lv.append((D, Y))
                    v = cs.pp[k] if cs.how == "perpoint" else np.full(len(D), cs.declared[k])
                    noise.append(v)
                    if seen is not None:
                        s = np.ravel(seen[k])
                        ev.append(dict(op="declared", v=fxs(np.full(len(D), s[0]) if len(s) == 1 else s), n=fxs(v)))
            ref = dict(std=std, lv=lv)
            continue
        P = np.vstack([zoo.points(4, cs.nx, q["seed"]), zoo.points(2, cs.nx, q["seed"] + 1, margin=0.2), data[-1][0][q["seed"] % len(data[-1][0])][None]])
        known = all(v is not None for v in noise) and not cs.how.startswith("optim")
        if known:
            my, mv, cond = cokriging(cs, ref, noise, P)
            known = cond < 1e8
        sy = 2 * np.abs(np.vstack([d[3] for d in data])).max()
        if cs.how.startswith("optim"):
            # the samples of the top level are replaced by the smoothed ones and interpolated
            o = {k: v for k, v in cs.opts.items() if k != "optim_var"}
            A = MFK(**o)
            for k in range(nl):
                A.set_training_values(data[k][2].copy(), data[k][3].copy(), **(dict(name=k) if k < nl - 1 else {}))
            np.random.seed(3)
            with Quiet():
                A.train()
                T = data[-1][0]
                ya, yb, v = A.predict_values(T), sm.predict_values(T), sm.predict_variances(T)
            ev.append(dict(op="forced", v=fxs(v if cs.m["nested"] else [], sy ** 2), y=fxm(yb, sy), refy=fxm(ya, sy), tol=200))
            continue
        with Quiet():
            if op == "levels":
                v = np.asarray(sm.predict_variances_all_levels(P)[0])
                y = np.array([np.ravel(sm._predict_intermediate_values(P, k + 1)) for k in range(nl)]).T if hasattr(sm, "_predict_intermediate_values") else my
            else:
                y, v = np.asarray(sm.predict_values(P)), np.asarray(sm.predict_variances(P)).reshape(-1, 1)
                if known:
                    my, mv = my[:, -1:], mv[:, -1:]
        sv = max(np.abs(mv).max() if known else 0, sy ** 2 / 4)
        ev.append(dict(op="predict", known=known, y=fxm(y, sy), v=fxm(v, sv), refy=fxm(my, sy) if known else [], refv=fxm(mv, sv) if known else [], tol=200))
    return ev


def run(ctx):
    ctx.model_check("MfNoise", {"Ys": tlaset(range(5 if ctx.thorough else 4)), "MaxObs": 6 if ctx.thorough else 5}, ["Sufficient", "NonNegative", "OrderFree"])
    bs = ctx.generate("MfNoiseGen", {"Depth": 6}, num=ctx.n(150, 1000), depth=10)
    jobs = []
    for i, b in enumerate(bs):
        m = b["mod"]
        key = "%s/%s/%s/%s/l%d/n%d" % (m["how"].strip(), m["corr"].strip(), m["poly"].strip(), m["rho"].strip(), m["nl"], m["nx"])
        jobs.append((key + "-%d" % i, dict(how=m["how"].strip()), (lambda b=b: play(b)), dict(key=key, limit=90)))
    ctx.validate("MfNoiseTrace", parallel(jobs))
