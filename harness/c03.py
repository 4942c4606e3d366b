"""C03: training is a function of options and data (spec/Lifecycle.tla)."""
import copy
from harness.core import *
from harness.scen import parallel
from harness import zoo

KINDS = ["LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK"]
MF = ("MFK", "MFKPLS", "MFKPLSK")
# data sets: (n, nx, ny, levels)
SETS = {1: (9, 2, 1, 2), 2: (11, 2, 1, 2), 3: (12, 3, 1, 2), 4: (11, 2, 2, 3), 5: (15, 3, 1, 3)}


def dims(kind, d):
    n, nx, ny, lv = SETS[d]
    if kind in ("RMTB", "RMTC") and nx == 3:
        nx = 1
    if kind not in ("LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK"):
        ny = 1
    if kind == "QP":
        n += 4
    if kind == "KRG":
        n += 3
    return n, nx, ny, lv


def value(kind, o, v, d):
    """the python value behind token v of option o, for data set d"""
    n, nx, ny, lv = dims(kind, d)
    if v in ("F", "T"):
        return v == "T"
    if o == "theta0":
        nc = nx
        return {"a": [0.5], "b": [0.05], "arr": np.array([0.3]), "full": [0.4, 0.7, 0.2][:nc], "out": [1000.0]}[v]
    if o == "theta_bounds":
        return {"a": [1e-3, 50.0], "b": np.array([1e-2, 10.0])}[v]
    if o == "nugget":
        return {"a": 1e-10, "b": 1e-8}[v]
    if o == "noise0":
        return {"zero": [0.0], "a": [1e-2], "per": list(1e-3 * (1 + np.arange(n)))}[v]
    if o == "noise_bounds":
        return {"a": [1e-12, 1e10], "b": np.array([1e-6, 1.0])}[v]
    if o in ("n_comp", "approx_order", "nonlinear_maxiter", "order", "extra_points", "poly_degree"):
        return int(v)
    if o == "p":
        return float(v)
    if o == "d0":
        return {"a": 1.0, "b": 0.4, "list": [0.7, 1.3, 1.1][:nx]}[v]
    if o == "reg":
        return {"a": 1e-10, "b": 1e-6}[v]
    if o == "energy_weight":
        return {"a": 1e-4, "b": 1e-2}[v]
    if o == "regularization_weight":
        return {"a": 1e-14, "b": 1e-8}[v]
    if o == "grad_weight":
        return {"a": 0.5, "b": 2.0}[v]
    if o == "smoothness":
        return {"a": 1.0, "b": 3.0, "list": [1.0, 2.0, 0.5][:nx]}[v]
    if o == "num_ctrl_pts":
        return {"6": 6, "list": np.array([6, 7, 6][:nx])}[v]
    if o == "num_elements":
        return {"2": 2, "list": [2, 3, 2][:nx]}[v]
    if o == "delta_x":
        return {"a": 0.02, "b": 0.05}[v]
    return v


def fresh(kind):
    import smt.surrogate_models as S
    import smt.applications as A
    cls = getattr(S, kind, None) or getattr(A, kind)
    kw = {}
    if kind in ("RMTB", "RMTC", "GEKPLS"):
        kw["xlimits"] = zoo.limits(2)
    if kind == "RMTB":
        kw["num_ctrl_pts"] = 6
    if kind == "RMTC":
        kw["num_elements"] = 2
    if kind in ("RMTB", "RMTC"):
        kw["nonlinear_maxiter"] = 4
        kw["solver"] = "lu"
    return cls(print_global=False, **kw)


def data(kind, d, ver):
    n, nx, ny, lv = dims(kind, d)
    if kind in MF:
        Xs = zoo.nested(n - 3, nx, d, lv)
    else:
        Xs = [zoo.doe(n, nx, d)]
    out = []
    for i, X in enumerate(Xs):
        Y, dY = zoo.f_smooth(X, ny, 1.0)
        Y = Y * (1 + 0.3 * ver) + 0.2 * ver * np.sin(3 * ver * X[:, :1])
        l = len(Xs) - 1 - i
        out.append((X, zoo.low_fi(Y, X, l) if l else Y, dY))
    return out


def load(sm, kind, dat, der, only_y=False):
    for i, (X, Y, dY) in enumerate(dat):
        name = None if i == len(dat) - 1 else i
        if only_y:
            sm.update_training_values(Y.copy(), name=name)
        else:
            sm.set_training_values(X.copy(), Y.copy(), name=name)
    if der and not only_y:
        for k in range(dat[-1][0].shape[1]):
            sm.set_training_derivatives(dat[-1][0].copy(), dat[-1][2][k].copy(), k)


def train(sm):
    np.random.seed(99)
    return attempt(sm.train)[0]


def predictions(sm, xe, outputs=True):
    out = {}
    with Quiet():
        y = sm.predict_values(xe)
        sc = max(1e-3, float(np.max(np.abs(y))))
        out["values"] = fxm(y, sc)
        for k in range(xe.shape[1]):
            res, d = attempt(sm.predict_derivatives, xe, k)
            out["d%d" % k] = fxm(d, sc) if res == "ok" else [[-1]]
        res, v = attempt(sm.predict_variances, xe)
        out["var"] = fxm(v, sc * sc) if res == "ok" else [[-1]]
        if outputs and sm.supports["output_derivatives"] and xe.shape[0] < 8:
            res, o = attempt(sm.predict_output_derivatives, xe)
            if res == "ok":
                for k in o:
                    a = np.asarray(o[k])
                    out["o%s" % k] = fxm(a.reshape(a.shape[0], -1), 1.0)
    return out


def replay(b):
    kind = b["kind"]
    sm = fresh(kind)
    given = {}                # option -> (token, object given, pristine copy)
    defaults = {k: copy.deepcopy(sm.options[k]) for k in optnames(b)}
    cur = {"set": 0}
    ev = []

    def setopt(m, o, v, d, remember=None):
        w = value(kind, o, v, d)
        if remember is not None:
            remember[o] = (v, w, copy.deepcopy(w))
        m.options[o] = w

    def obs_opts():
        r = {}
        for o in defaults:
            if o in given:
                r[o] = given[o][0] if same(sm.options[o], given[o][2]) else "changed"
            else:
                r[o] = "def" if same(sm.options[o], defaults[o]) else "changed"
        return r

    stored = []
    last = dict(said=None, xe=None)      # what the model trained last answers, and where (None: no model, or options changed since)

    def still():
        if last["said"] is None:
            return {}
        res, y = attempt(predictions, sm, last["xe"], False)
        return y if res == "ok" else {"error": [[res]]}

    def relimit(m, d):
        if kind in ("RMTB", "RMTC", "GEKPLS"):
            m.options["xlimits"] = zoo.limits(dims(kind, d)[1])
        for o in list(given):
            if o in ("theta0", "d0", "smoothness", "num_ctrl_pts", "num_elements", "noise0") and given[o][0] in ("full", "list", "per"):
                setopt(m, o, given[o][0], d, given)      # per-dimension values follow the data

    for op in b["ev"]:
        e = dict(op)
        e["res"] = "ok"
        if op["op"] == "setdata":
            moved = op["set"] != cur["set"]
            cur = dict(op)
            if kind in MF or op["der"] == 0:
                # groups and derivative slots of earlier data sets would remain: a new object is the only way to drop
                # them, so the history goes on with a set that has them all (see setslots)
                pass
            dat = data(kind, op["set"], op["ver"])
            dropstale(sm, dat, op["der"])
            load(sm, kind, dat, op["der"])
            stored = dat
            e["said"], e["still"] = last["said"] or {}, still()
            if moved:
                relimit(sm, op["set"])
                last["said"] = None if kind in ("RMTB", "RMTC", "GEKPLS") or given else last["said"]
        elif op["op"] == "updatey":
            cur["ver"] = op["ver"]
            dat = data(kind, cur["set"], op["ver"])
            load(sm, kind, dat, 0, only_y=True)
            stored = dat
            e["said"], e["still"] = last["said"] or {}, still()
        elif op["op"] == "setopt":
            setopt(sm, op["o"], op["v"], cur["set"], given)
            last["said"] = None
        elif op["op"] == "predict":
            attempt(lambda: predictions(sm, zoo.points(3, dims(kind, cur["set"])[1], 8)))
        else:
            n, nx, ny, lv = dims(kind, cur["set"])
            xe = zoo.points(5, nx, 4)
            w = op["want"]
            ref = fresh(kind)
            if kind in ("RMTB", "RMTC", "GEKPLS"):
                ref.options["xlimits"] = zoo.limits(nx)
            for o, v in dict(w["opt"]).items():
                if v != "def":
                    setopt(ref, o, v, w["data"]["set"])
            load(ref, kind, data(kind, w["data"]["set"], w["data"]["ver"]), w["data"]["der"])
            e["refres"] = train(ref)
            e["res"] = train(sm)
            e["pred"] = predictions(sm, xe) if e["res"] == "ok" else {}
            e["ref"] = predictions(ref, xe) if e["refres"] == "ok" else {}
            e["pred2"] = e["ref"]
            if e["res"] == "ok" and len(ev) % 3 == 0:
                train(sm)
                e["pred2"] = predictions(sm, xe)
            last = dict(said=predictions(sm, xe, False) if e["res"] == "ok" else None, xe=xe)
        e["opts"] = obs_opts()
        e["objs"] = all(same(g[1], g[2]) for g in given.values())
        e["data"] = all(same(sm.training_points[None if i == len(stored) - 1 else i][0][j], stored[i][j]) for i in range(len(stored)) for j in (0, 1))
        ev.append(e)
    return ev


def dropstale(sm, dat, der):
    """what a caller does to drop groups or derivatives: the training data mapping is public"""
    sm.training_points.clear()


def optnames(b):
    for op in b["ev"]:
        if op["op"] == "train":
            return list(op["want"]["opt"])
    return []


def run(ctx):
    ctx.model_check("Lifecycle", {"MaxOps": ctx.n(3, 4)}, ["TrainIdempotent"], ["OnlySetOptChangesOptions", "OnlyTrainingFits"])
    beh = []
    for k in KINDS:
        beh += ctx.generate("LifecycleGen", {"MaxOps": 0, "Depth": 22, "GenKinds": '{"%s"}' % k}, num=ctx.n(12 if k in ("LS", "QP", "IDW") else 24, 250), depth=25, spec="GSpec")
    jobs = [("walk%d/%s" % (i, b["kind"]), dict(kind=b["kind"]), (lambda b=b: replay(b)), dict(key=b["kind"])) for i, b in enumerate(beh) if optnames(b) or b["kind"] in ("LS", "QP")]
    ctx.validate("LifecycleTrace", parallel(jobs))
