"""C15: nested Latin hypercubes (spec/Nested.tla)."""
from harness.core import *
from harness.scen import parallel


def play(walk, k):
    from smt.applications.mfk import NestedLHS
    ev = []
    for q in walk:
        nx = q["nx"]
        xl = np.array([[-2.0, 5.0], [0.0, 1e-3], [100.0, 103.0], [-1.0, 1.0]])[:nx]
        if k % 2:
            xl = xl[::-1].copy()
        keep = xl.copy()
        if q["op"] == "invalid":
            lv = [0, -1, -3][k % 3]
            ev.append(dict(op="invalid", res=attempt(lambda: NestedLHS(lv, xl)(q["n"]))[0]))
            continue
        res, r = attempt(lambda: NestedLHS(nlevel=q["lev"], xlimits=xl)(q["n"]))
        e = dict(q, res=res, limsame=same(keep, xl), m=[], ids=[])
        if res == "ok":
            names = {}
            for a in r:
                a = np.asarray(a, dtype=float)
                e["ids"].append([names.setdefault(p.tobytes(), len(names)) for p in a])
                e["m"].append(fxm((a - keep[:, 0]) / (keep[:, 1] - keep[:, 0])) if a.ndim == 2 and a.shape[1] == nx else [])
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Nested", {"N0": ctx.n(3, 4), "NX": 1, "Lev": 2}, ["SizeRight", "KeptDistinct", "NeverStuck"])
    walks = ctx.generate("NestedGen", {"MaxN": ctx.n(6, 20), "MaxLev": ctx.n(3, 4), "Depth": 6}, num=ctx.n(110, 600), depth=10)
    jobs = [("walk-%d" % i, dict(k=i), (lambda w=w, i=i: play(w, i)), dict(key="walk", limit=200)) for i, w in enumerate(walks)]
    ctx.validate("NestedTrace", parallel(jobs))
