"""C29: benchmark problems (spec/Bench.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import benchlib as B
from harness.c07 import slopes


def layout(X, order):
    if order == "F":
        return np.asfortranarray(X)
    if order == "view":
        Z = np.zeros((2 * X.shape[0], X.shape[1] + 1))
        Z[::2, 1:] = X
        return Z[::2, 1:]
    return X.copy()


def play(b):
    p = b["prob"]
    name, par = p["name"], p["par"]
    prob = B.make(name, p["dim"], par, p["complex"])
    xl = np.array(prob.xlimits, float)
    nd = len(xl)
    w = xl[:, 1] - xl[:, 0]
    ev = []
    S0 = B.points(name, xl, "inside", 40, 5)
    sc = max(1e-9, float(np.ptp([B.reference(name, par, x) for x in S0]))) if nd > 1 or name != "rosen" else 1.0
    sc = sc if sc > 1e-12 else 1.0
    base = name[:-3] if name.endswith("-fd") else name
    f = lambda x: np.real(prob(x))
    groups = {}
    for q in b["walk"]:
        groups.setdefault(q["batch"], []).append(q)
    for bt, qs in sorted(groups.items()):
        P = [B.points(name, xl, q["where"], 1, q["seed"]) for q in qs]
        P = [x[0] for x in P if x is not None]
        if not P:
            continue
        P = np.array(P)
        x = layout(P, qs[0]["order"])
        keep = x.copy()
        res, y = attempt(prob, x)
        e = dict(op="values", res=res, kept=same(np.ascontiguousarray(x), np.ascontiguousarray(keep)))
        if res == "ok":
            y = np.asarray(y)
            e.update(shape=y.shape == (len(P), 1), real=(np.iscomplexobj(y) if p["complex"] else not np.iscomplexobj(y)) and bool(np.all(np.abs(np.imag(y)) < 1e-12)),
                     vals=fxs(np.real(y).ravel(), 3 * sc), want=fxs([B.reference(name, par, v) for v in P], 3 * sc))
        ev.append(e)
        if res != "ok":
            continue
        ks = range(nd) if nd <= 4 else sorted(set([(p["pick"] * (i + 1) + i) % nd for i in range(5)]))
        for k in ks:
            noise = 0.0
            if name.endswith("-fd"):
                noise = 4e-16 * float(np.max(np.abs(y))) / 1e-6 * 20
            S = 3 * sc / w[k]
            for e in slopes(f, lambda P, k: np.real(prob(P, k)), P, k, 2e-4 * w[k], S, 1):
                e.update(op="point", tol=min(10 ** 8, int(60 + 1e6 * noise / S)))
                ev.append(e)
        # each row depends on its own point
        one = np.vstack([np.asarray(prob(P[i:i + 1])) for i in range(len(P))])
        k = p["pick"] % nd
        kk = x.copy()
        dd = np.asarray(prob(x, k))
        d1 = np.vstack([np.asarray(prob(P[i:i + 1], k)) for i in range(len(P))])
        rev = np.asarray(prob(P[::-1].copy(), k))[::-1]
        ev.append(dict(op="rows", same=bool(np.allclose(one, y, rtol=1e-13, atol=0) and np.allclose(d1, dd, rtol=1e-12, atol=1e-300) and np.allclose(rev, dd, rtol=1e-12, atol=1e-300)),
                       kept=same(np.ascontiguousarray(x), np.ascontiguousarray(kk))))
        if base[:2] == "tp":
            fs = [[B.factor(base[3:], float(B.WIDTH[par]), v) for v in r] for r in P]
            for i in range(len(P)):
                if max(abs(v) for v in fs[i]) < 4 and abs(np.real(y[i, 0])) < 19:
                    ev.append(dict(op="product", val=fx(np.real(y[i, 0])), factors=fxs(fs[i])))
        if base in ("sphere", "rosen"):
            Z = np.round(P).astype(float)
            v = np.real(prob(Z)).ravel()
            ds = [np.real(prob(Z, j)).ravel() for j in range(nd)]
            for i in range(len(Z)):
                ev.append(dict(op="exact", x=[int(c) for c in Z[i]], val=int(round(v[i])) if abs(v[i] - round(v[i])) < 1e-9 else -1, ders=[int(round(d[i])) for d in ds]))
    x = 0.5 * (xl[:, 0] + xl[:, 1])[None, :] + 0.01 * w
    for what, fn in (("index-too-large", lambda: prob(x, nd)), ("index-far-too-large", lambda: prob(x, nd + 1 + p["pick"] % 3)), ("index-negative", lambda: prob(x, -1)),
                     ("index-not-an-integer", lambda: prob(x, 0.0)), ("too-many-variables", lambda: prob(np.hstack([x, x[:, :1]]))),
                     ("too-few-variables", lambda: prob(x[:, :-1]) if nd > 1 else prob(np.ones((2, 2)))), ("three-dimensional", lambda: prob(x[None]))):
        ev.append(dict(op="reject", what=what, res=attempt(fn)[0]))
    return ev


def run(ctx):
    ctx.model_check("Bench", {"N": 3, "Coords": tlaset([0, 1, 2]), "MaxDepth": 2}, ["Nested", "Chain"])
    bs = ctx.generate("BenchGen", {"Depth": ctx.n(10, 14)}, num=ctx.n(420, 4000), depth=18)
    jobs = [("%s-%d" % (b["prob"]["name"], i), dict(name=b["prob"]["name"]), (lambda b=b: play(b)), dict(key=b["prob"]["name"], limit=60)) for i, b in enumerate(bs)]
    ctx.validate("BenchTrace", parallel(jobs))
