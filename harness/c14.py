"""C14: full-factorial sampling (spec/Grid.tla)."""
from harness.core import *
from harness.scen import parallel


def play(walk, k):
    from smt.sampling_methods import FullFactorial
    ev = []
    for i, q in enumerate(walk):
        nx = q["nx"]
        xl = np.array([[-2.0, 5.0], [0.0, 1e-3], [100.0, 103.0], [-1.0, 1.0]])[:nx]
        if (k + i) % 2:
            xl = np.asfortranarray(xl)
        keep = xl.copy()
        w = None if q["given"] == "none" else [float(v) for v in q["w"]] if q["given"] == "list" else np.array(q["w"], dtype=float) if q["given"] == "array" \
            else np.array(q["w"]) if q["given"] == "intarray" else [int(v) for v in q["w"]]
        wk = None if w is None else (w.copy() if isinstance(w, np.ndarray) else list(w))
        kw = dict(xlimits=xl, clip=q["clip"])
        if w is not None:
            kw["weights"] = w
        res, r = attempt(lambda: (lambda s: (s(q["n"]), s(q["n"])))(FullFactorial(**kw)))
        e = dict(q, op="grid", res=res, wsame=w is None or same(w, wk), limsame=same(np.ascontiguousarray(keep), np.ascontiguousarray(xl)))
        if res == "ok":
            m = np.asarray(r[0])
            e["m"] = fxm((m - keep[:, 0]) / (keep[:, 1] - keep[:, 0])) if m.ndim == 2 and m.shape[1] == nx else []
            e["again"] = same(np.asarray(r[0]), np.asarray(r[1]))
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("Grid", {"NX": ctx.n(2, 3), "MaxW": ctx.n(3, 4), "MaxN": ctx.n(12, 24)}, ["Minimal", "Progress", "Balanced", "Unweighted"], properties=["Ends"])
    walks = ctx.generate("GridGen", {"MaxN": ctx.n(40, 150), "MaxW": 5}, num=ctx.n(300, 2000), depth=14)
    jobs = [("walk-%d" % i, dict(k=i), (lambda w=w, i=i: play(w, i)), dict(key="walk")) for i, w in enumerate(walks)]
    ctx.validate("GridTrace", parallel(jobs))
