"""C13: Latin hypercube and random sampling (spec/Lhs.tla)."""
from harness.core import *
from harness.scen import parallel
from scipy.spatial.distance import pdist


def limits(nx, k):
    L = np.array([[-2.0, 5.0], [1e-3, 2e-3], [1000.0, 1003.0]])[:nx]
    return L[::-1].copy() if k % 2 else L.copy()


def phip(U):
    d = pdist(U)
    return float((d ** -10.0).sum() ** 0.1)


_typ = {}


def typical(n, nx):
    """median criterion of plain Latin designs"""
    if (n, nx) not in _typ:
        r = np.random.RandomState(5)
        _typ[(n, nx)] = float(np.median([phip(np.array([(r.permutation(n) + r.rand(n)) / n for _ in range(nx)]).T) for _ in range(60)]))
    return _typ[(n, nx)]


def play(walk, k):
    from smt.sampling_methods import LHS, Random
    np.random.seed(0)
    seeds = {1: 0, 2: 17, 3: 100017, 4: 2 ** 32 - 1 - k}
    objs = {i: np.random.RandomState(s) for i, s in seeds.items()}
    ev = []
    for q in walk:
        if q["op"] == "seedglobal":
            np.random.seed(q["seed"])
            ev.append(q)
            continue
        n, nx = q["n"], q["nx"]
        xl = limits(nx, k)
        keep = xl.copy()
        kw = dict(xlimits=xl)
        if q["crit"] != "random":
            kw["criterion"] = q["crit"]
            if q["src"] == "int":
                kw["random_state"] = seeds[q["seed"]]
            elif q["src"] == "obj":
                kw["random_state"] = objs[q["seed"]]
        g0 = np.random.get_state()[1:3]
        g0 = (g0[0].copy(), g0[1])
        res, m = attempt(lambda: (Random if q["crit"] == "random" else LHS)(**kw)(n))
        g1 = np.random.get_state()[1:3]
        e = dict(q, res=res, globsame=bool(np.array_equal(g0[0], g1[0]) and g0[1] == g1[1]), limsame=same(keep, xl))
        if q["crit"] == "random":
            e["seed"] = 0
        if res == "ok":
            m = np.asarray(m)
            e["shape"] = shape(m)
            U = (m - keep[:, 0]) / (keep[:, 1] - keep[:, 0]) if m.shape == (n, nx) else np.zeros((0, 0))
            e["m"] = fxm(U * n, 1.0)
            e["digest"] = digest(m)
            if q["crit"] == "ese" and n >= 5 and nx > 1 and U.size:
                e["phip"], e["typical"] = fx(phip(U)), fx(typical(n, nx))
            else:
                e["phip"], e["typical"] = 0, 0
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Lhs", {"N": ctx.n(3, 4), "NX": 2}, ["StaysLatin", "BreakSeen"])
    walks = ctx.generate("LhsGen", {"Depth": ctx.n(24, 40), "MaxN": ctx.n(14, 30)}, num=ctx.n(160, 900), depth=45)
    jobs = [("walk-%d" % i, dict(k=i), (lambda w=w, i=i: play(w, i)), dict(key="walk", limit=120)) for i, w in enumerate(walks)]
    ctx.validate("LhsTrace", parallel(jobs))
