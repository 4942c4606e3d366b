"""C02: training data store (spec/TrainingData.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo

CFG = dict(LS=dict(kind="LS"), IDW=dict(kind="IDW", v="p2"), RBF=dict(kind="RBF", poly="0", v="d1"),
           KRG=dict(kind="KRG", corr="squar_exp", poly="constant", v="cobyla"), RMTC=dict(kind="RMTC", v="lu"), RMTB=dict(kind="RMTB", v="lu"),
           GEKPLS=dict(kind="GEKPLS", corr="squar_exp", poly="constant", nc=1, v="extra1"), MFK=dict(kind="MFK", corr="squar_exp", poly="constant", v="lev2"))
GROUP = {"none": None, "0": 0, "lo": "lo"}


def make(kind, nx):
    c = dict(corr="-", poly="-", nc=0, v="-"); c.update(CFG[kind])
    return zoo.build(c, nx)


def content(a, xl=None):
    """the pristine 2-D contents of array `a` of the specification"""
    r = np.random.RandomState(7919 + a["id"] * 31)
    n, m = a["rows"], a["cols"]
    if xl is not None:
        U = np.array([(r.permutation(n) + 0.2 + 0.6 * r.rand(n)) / n for _ in range(m)]).T
        return xl[:, 0] + U * (xl[:, 1] - xl[:, 0])
    Y = r.rand(n, m) * 3 - 1
    return np.round(Y * 50) if a["form"] == "int" else Y


def hand(a, P):
    """the object passed to the code"""
    f = a["form"]
    if f == "1d":
        return P[:, 0].copy()
    if f == "fortran":
        return np.asfortranarray(P.copy())
    if f == "view":
        B = np.zeros((2 * P.shape[0], 2 * P.shape[1])); B[::2, ::2] = P
        return B[::2, ::2]
    if f == "int":
        return P.astype(int)
    if f == "list":
        return P.tolist()
    if f == "3d":
        return P[:, :, None].copy()
    if f == "none":
        return None
    return P.copy()


def replay(b):
    m = b["model"]
    nx = m["nx"]
    xl = zoo.limits(nx)
    sm = make(m["kind"], nx)
    P, handed, ev = {}, [], []
    xe = zoo.points(4, nx, 5)

    def arr(a, x):
        if a["id"] not in P:
            P[a["id"]] = content(a, xl if x else None)
        h = hand(a, P[a["id"]])
        if isinstance(h, np.ndarray):
            handed.append(h)
        return h

    def find(a):
        a = np.asarray(a)
        for i, q in P.items():
            if a.shape == q.shape and np.array_equal(a, q):
                return i
        return -1

    for op in b["ev"]:
        e = {k: v for k, v in op.items() if k != "store"}
        o = op["op"]
        g = GROUP[op["g"]] if "g" in op else None
        before = set(k for k in sm.training_points)
        x = arr(op["x"], True) if "x" in op else None
        y = arr(op["y"], False) if "y" in op else None
        keep = [np.array(z) for z in (x, y) if isinstance(z, np.ndarray)]
        if o == "setv":
            res, _ = attempt(sm.set_training_values, x, y, g)
        elif o == "updv":
            res, _ = attempt(sm.update_training_values, y, g)
        elif o == "setd":
            res, _ = attempt(sm.set_training_derivatives, x, y, op["k"] - 1, g)
        elif o == "updd":
            res, _ = attempt(sm.update_training_derivatives, y, op["k"] - 1, g)
        elif o == "scribble":
            for h in handed:
                h[...] = -77
            handed.clear()
            res = "ok"
        else:
            ref = make(m["kind"], nx)
            for s in sorted(op["store"], key=lambda s: (s["g"] != "lo", s["g"] == "none", s["k"])):
                gg = GROUP[s["g"]]
                X, Y = P[s["x"]["id"]].copy(), P[s["y"]["id"]].copy()
                if s["k"] == 0:
                    ref.set_training_values(X, Y, gg)
                else:
                    ref.set_training_derivatives(X, Y, s["k"] - 1, gg)
            out = []
            for q in (sm, ref):
                np.random.seed(1)
                with Quiet():
                    q.train()
                    out.append(q.predict_values(xe))
            res = "ok"
            sc = max(1e-3, float(np.max(np.abs(out[1]))))
            e["pred"], e["ref"] = fxm(out[0], sc), fxm(out[1], sc)
            e["shape"], e["refshape"] = shape(out[0]), shape(out[1])
        if any(not np.array_equal(a, z) for a, z in zip(keep, [z for z in (x, y) if isinstance(z, np.ndarray)])):
            res = "argument-changed"
        e["res"] = res
        e["store"] = [dict(g="none" if k is None else str(k), k=int(j), x=find(v[0]), y=find(v[1]))
                      for k, d in sm.training_points.items() for j, v in d.items()]
        # a rejected call must not make an unknown group appear
        e["nophantom"] = all(sm.training_points[k] for k in set(sm.training_points) - before)
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check("TrainingData", {"Groups": '{"none", "0"}', "MaxOps": ctx.n(2, 3), "Rows": "{1, 2}", "Cols": "{1}", "MaxNx": 2},
                    ["RowsAgree", "OnlySupported"], ["NothingForgotten", "OneSlotAtATime"])
    beh = ctx.generate("TrainingDataGen", {"Groups": '{"none", "0", "lo"}', "MaxOps": 0, "Rows": "{6, 7, 8}", "Cols": "{1, 2}", "MaxNx": 2, "Depth": 25},
                       num=ctx.n(200, 3000), depth=28, spec="GSpec")
    traces = parallel([("walk%d/%s%d" % (i, b["model"]["kind"], b["model"]["nx"]), b["model"], (lambda b=b: replay(b))) for i, b in enumerate(beh)])
    for t in traces:
        t["key"] = t["name"].split("/")[1]
    ctx.validate("TrainingDataTrace", traces)
