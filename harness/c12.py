"""C12: mixed-integer samplings and surrogates (spec/MixInt.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness.c11 import build, snap, unchanged, fxu


def samplings(b, k):
    import smt.applications.mixed_integer as mi
    from smt.sampling_methods import LHS, Random, FullFactorial
    xt, xl, cfg, U = build(b)
    ev = []
    for folded in (True, False):
        ctx = mi.MixedIntegerContext(xt, xl, work_in_folded_space=folded)
        for cls, kw in ((LHS, dict(criterion=["c", "m", "ese", "cm"][k % 4], random_state=k)), (Random, {}), (FullFactorial, {})):
            for n in (2 + k % 4, 7 + k % 6):
                if kw.get("criterion") == "ese" and n < 4:
                    continue
                s = snap(xl)
                np.random.seed(k)
                a = mi.MixedIntegerSamplingMethod(xt, xl, cls, output_in_folded_space=folded, **dict(kw))(n)
                ev.append(dict(op="doe", n=n, folded=folded, x=fxu(a), same=unchanged(s, xl)))
                np.random.seed(k)
                c = ctx.build_sampling_method(cls, **dict(kw))(n)
                ev.append(dict(op="context", what="sampling", equal=same(a, c)))
                # the underlying continuous sampling, cast
                if k % 5 == 0:
                    np.random.seed(k)
                    raw = cls(xlimits=mi.unfold_xlimits_with_continuous_limits(xt, xl), **dict(kw))(n)
                    w = mi.cast_to_discrete_values(xt, raw)
                    ev.append(dict(op="context", what="cast-sample", equal=same(np.asarray(a), mi.fold_with_enum_index(xt, w) if folded else w)))
    return ev


MODELS = {
    "KRG": dict(theta0=[0.5], theta_bounds=[1e-2, 20.0]), "KPLS": dict(theta0=[0.5], n_comp=1, theta_bounds=[1e-2, 20.0]), "IDW": {}, "RBF": dict(d0=1.0), "LS": {},
    "MFK": dict(theta0=[0.5], theta_bounds=[1e-2, 20.0]),
}


def make(kind):
    import smt.surrogate_models as S
    import smt.applications as A
    return (getattr(S, kind, None) or getattr(A, kind))(print_global=False, **MODELS[kind])


def admissible(xt, xl, cfg, n, seed):
    """distinct admissible folded points"""
    r = np.random.RandomState(seed)
    P, seen = [], set()
    for _ in range(60 * n):
        p = []
        for t, l in zip(cfg["types"], xl):
            p.append(float(np.round(l[0] + (l[1] - l[0]) * r.rand(), 3)) if t["t"] == "F" else float(r.randint(l[0], l[1] + 1)) if t["t"] == "I" else float(r.randint(t["k"])))
        if tuple(p) not in seen:
            seen.add(tuple(p)); P.append(p)
        if len(P) == n:
            break
    return np.array(P)


def unf(cfg, F):
    """the harness's own unfolding"""
    rows = []
    for p in F:
        r = []
        for t, v in zip(cfg["types"], p):
            r += [1.0 if j == int(v) else 0.0 for j in range(t["k"])] if t["t"] == "E" else [v]
        rows.append(r)
    return np.array(rows)


def fun(U, ny):
    w = np.arange(1, U.shape[1] + 1)
    return np.c_[[np.sin(U.dot(w) * 0.7 / (1 + j)) + 0.1 * U.dot(w[::-1]) for j in range(ny)]].T


def surrogate(b, kind, folded, ny, k):
    import smt.applications.mixed_integer as mi
    xt, xl, cfg, U = build(b)
    ev = []
    F = admissible(xt, xl, cfg, 10, k)
    FU = unf(cfg, F)
    Y = fun(FU, ny)
    if len(F) < 4:
        return ev
    own = mi.MixedIntegerContext(xt, xl, work_in_folded_space=folded).build_surrogate_model(make(kind)) if k % 2 else \
        mi.MixedIntegerSurrogateModel(xt, xl, make(kind), input_in_folded_space=folded)
    ref = make(kind)
    X = F if folded else FU
    s = snap(X, Y)
    names = ["low"] if kind == "MFK" else []
    lo = 0
    if kind == "MFK":
        own.set_training_values(X, 0.5 * Y + 1, name=0); ref.set_training_values(FU, 0.5 * Y + 1, name=0)
    own.set_training_values(X, Y); ref.set_training_values(FU, Y)
    if (k // 6) % 3 == 0:
        Y2 = Y * 2 - 1
        if kind == "MFK":
            own.update_training_values(Y2 * 0.5 + 1, name=0); ref.update_training_values(Y2 * 0.5 + 1, name=0)
        own.update_training_values(Y2); ref.update_training_values(Y2)
    with Quiet():
        np.random.seed(1); own.train()
        np.random.seed(1); ref.train()
    ev.append(dict(op="context", what="arrays-after-training", equal=unchanged(s, X, Y)))
    # evaluation points: generated ones and some that cast to training points
    if folded:
        r = np.random.RandomState(k + 1)
        E = np.vstack([F[:3], admissible(xt, xl, cfg, 5, k + 9)])
        E2 = E.copy()
        for c, t in enumerate(cfg["types"]):
            if t["t"] == "I":
                E2[:, c] += r.choice([-0.4, -0.25, 0.0, 0.25, 0.4], size=len(E2))
                E2[:, c] = np.clip(E2[:, c], xl[c][0], xl[c][1])
        batches = [E, E2, E2[::-1][:2]]
    else:
        near = FU[:3].copy()
        col = 0
        for t in cfg["types"]:
            if t["t"] == "E":
                near[:, col:col + t["k"]] *= 0.75
            col += t["k"]
        batches = [U, np.vstack([FU[:3], near]), U[::-1][:2]]
    sc = max(1e-2, float(np.ptp(Y)))
    for E in batches:
        s = snap(E)
        UE = mi.unfold_with_enum_mask(xt, E) if folded else E
        key = mi.cast_to_discrete_values(xt, UE)
        for kd, a, q, z in (("values", own.predict_values, ref.predict_values, sc), ("variance", own.predict_variances, ref.predict_variances, sc * sc)):
            if kd == "variance" and kind not in ("KRG", "KPLS", "MFK"):
                continue
            with Quiet():
                v, w = a(E), q(key)
            ev.append(dict(op="predict", kind=kd, u=fxu(UE), key=fxu(key), rows=fxm(v, z), ref=fxm(w, z), same=unchanged(s, E)))
    return ev


def run(ctx):
    ctx.model_check("MixInt", {"NV": 2, "MaxLev": 2, "Vals": tlaset([0, 1, 2])}, ["CastAdmissible", "Idempotent", "RoundTrip", "FoldAdmissible", "CastExists"])
    bs = ctx.generate("MixIntGen", {"MaxVars": 3, "MaxLev": 3, "NPts": 6}, num=ctx.n(220, 1500), depth=30)
    bs = [b for b in bs if b["types"]]
    jobs = []
    for i, b in enumerate(bs):
        key = "".join(t["t"] + (str(t["k"]) if t["t"] == "E" else "") for t in b["types"])
        cfg = dict(build(b)[2], tol=200)
        jobs.append(("sampling-%s-%d" % (key, i), cfg, (lambda b=b, i=i: samplings(b, i)), dict(key="sampling-" + key)))
        kinds = sorted(MODELS)
        for j in range(ctx.n(2, 4)):
            kind = kinds[(i + j * 3) % len(kinds)]
            folded = bool((i + j) % 2)
            ny = 2 if (i // 2) % 3 == 0 and kind in ("KRG", "IDW", "RBF", "LS") else 1
            jobs.append(("%s-%s-%s-y%d-%d" % (kind, "folded" if folded else "unfolded", key, ny, i), cfg,
                         (lambda b=b, i=i, kind=kind, folded=folded, ny=ny: surrogate(b, kind, folded, ny, i)), dict(key="%s-%s" % (kind, key))))
    ctx.validate("MixIntTrace", parallel(jobs))
