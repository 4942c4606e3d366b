"""C18: recombination of experts (spec/Moe.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import moe as M


def play(b):
    built = M.train(b)
    if built is None:
        return []
    m, X, Y, o, ok = built
    inner = getattr(m, "moe", m)
    r = np.random.RandomState(b["seed"])
    lo, hi = X.min(0), X.max(0)
    P = np.vstack([lo + (hi - lo) * r.rand(7, b["nx"]), X[:3], lo - 3 * (hi - lo), hi + 40 * (hi - lo), (X[:2] + X[2:4]) / 2])
    sc = max(1e-3, float(np.ptp(Y)))
    own = M.probabilities(inner, P)
    ev = []
    with Quiet():
        y = np.asarray(m.predict_values(P)); v = np.asarray(m.predict_variances(P)) if b["var"] else None
        vals = np.array([np.ravel(e.predict_values(P)) for e in inner._experts]).T
        vs = np.array([np.ravel(e.predict_variances(P)) for e in inner._experts]).T if b["var"] else None
        single = np.array([[np.ravel(e.predict_values(P[i:i + 1]))[0] for e in inner._experts] for i in range(len(P))])
        svar = np.array([[np.ravel(e.predict_variances(P[i:i + 1]))[0] for e in inner._experts] for i in range(len(P))]) if b["var"] else None
        alone = [np.ravel(m.predict_values(P[i:i + 1]))[0] for i in range(len(P))]
        pr = np.asarray(inner._proba_cluster(P)) if hasattr(inner, "_proba_cluster") else None
    z = np.maximum(sc, np.max(np.abs(vals), axis=1) / 10)
    for i in range(len(P)):
        zv = max(sc * sc, float(vs[i].max()) / 10) if b["var"] else 1.0
        ev.append(dict(op="point", own=fxs(own[i]), probs=fxs(pr[i]) if pr is not None else [], smooth=b["smooth"], hasvar=b["var"], values=fxs(vals[i], z[i]), vars=fxs(vs[i], zv) if b["var"] else [],
                       slack=min(3000, 40 + 2 * fx(np.max(np.abs(vals[i] - single[i])), z[i])), vslack=min(3000, 40 + 2 * fx(np.max(np.abs(vs[i] - svar[i])), zv)) if b["var"] else 0, y=fx(np.ravel(y)[i], z[i]), v=fx(np.ravel(v)[i], zv) if b["var"] else 0, alone=fx(alone[i], z[i])))
    ev.append(dict(op="equal", ok=shape(y) == [len(P), 1], what="one-row-per-point"))
    return ev


def run(ctx):
    ctx.model_check("Moe", {"Kinds": tlaset(["KRG", "LS"]), "NC": 2, "Errs": tlaset([1, 2, 3])}, ["OnlyEnabled", "Smallest", "CanChoose", "Hull"])
    bs = [b for b in ctx.generate("MoeGen", {"NFun": 3}, num=ctx.n(160, 900), depth=5) if not M.unusable(b)]
    jobs = []
    for i, b in enumerate(bs):
        key = "c%d-%s%s" % (b["nc"], "smooth" if b["smooth"] else "hard", "-heaviside" if b["heavi"] else "")
        jobs.append(("%s-x%d-%d" % (key, b["nx"], i), dict(k=i), (lambda b=b: play(b)), dict(key=key, limit=150)))
    ctx.validate("MoeTrace", parallel(jobs))
