"""C22: transparency of the result cache (spec/Cache.tla)."""
import pickle, tempfile
from harness.core import *
from harness.scen import parallel
from harness import zoo


class Owner:
    """an object of inputs with a printer, as the models pass"""
    def __init__(self, v):
        self.v = v
        self.printer = object.__new__(Marker)


class Marker:
    def __reduce__(self):
        raise pickle.PicklingError("the printer must not be an input")


def inputs(i, fam, seed):
    """four different inputs of a family that differ in one detail only"""
    r = np.random.RandomState(seed)
    A = r.rand(4, 3)
    if fam == 1:
        B = A.copy(); B[(i * 5) // 3 % 4, i % 3] += 0 if i == 1 else 1e-15 * i
        return dict(a=B)
    if fam == 2:
        return dict(a=A, b=[1, 1.0, True, 2][i - 1])
    if fam == 3:
        return dict(a=[A, A.T.copy(), A.reshape(3, 4), A.astype(np.float32)][i - 1])
    if fam == 4:
        return {"self": Owner([A, A + 1, A + 2, A + 3][i - 1]), "z": 1}
    if fam == 5:
        return [dict(a=1, b=2), dict(a=2, b=1), dict(b=1, c=2), dict(a=1, b=2, c=None)][i - 1]
    return dict(name="x" * i, opts={"k": [1, 2, i]})


def compute(i, seed):
    r = np.random.RandomState(seed * 7 + i)
    return dict(sol=r.rand(5, 2), n=i, extra=[1, "s" * i])


def raw(b):
    from smt.utils.caching import cached_operation
    c = b["c"]
    d = tempfile.mkdtemp(prefix="c22_")
    work = tempfile.mkdtemp(prefix="c22w_")
    back = os.getcwd()
    os.chdir(work)
    os.mkdir("None")
    ev = []
    mine = {}

    def listing():
        out = {}
        for base in (d, work):
            for root, _, fs in os.walk(base):
                for f in fs:
                    p = os.path.join(root, f); s = os.stat(p)
                    out[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
        return out

    def run(i, kind, where):
        """run, raise, crash; where: directory or None"""
        inp = inputs(i, c["fam"], c["seed"])
        marker = inp["self"].printer if c["fam"] == 4 else None
        before = listing()
        got, hit, out = "done", False, None
        try:
            with Quiet():
                with cached_operation(inp, where) as o:
                    if o:
                        hit = True
                    else:
                        if kind == "raise":
                            o["sol"] = 1
                            raise ZeroDivisionError()
                        o.update(compute(i, c["seed"]))
                    out = dict(o)
        except ZeroDivisionError:
            got = "raised"
        after = listing()
        new = [p for p in after if after[p] != before.get(p)]
        if new:
            mine[i] = new[0]
        fresh = compute(i, c["seed"])
        want = "raised" if kind == "raise" and not hit else "done"
        ev.append(dict(op="run", i=i, dir=where is not None, res=want, got=got, hit=hit, wrote=after != before,
                       out=digest(*[out[k] for k in ("sol", "n")]) if out and "sol" in out and "n" in out else "-", fresh=digest(fresh["sol"], fresh["n"])))
        if marker is not None:
            ev.append(dict(op="equal", ok=inp["self"].printer is marker, what="input-object-changed"))
        if kind == "crash" and not hit and where and i in mine and os.path.exists(mine[i]):
            # the process died while saving: the file is cut
            blob = open(mine[i], "rb").read()
            cut(mine[i], blob, o_k)
            ev.append(dict(op="fault", i=i, to="cut"))

    def cut(p, blob, k):
        with open(p, "wb") as f:
            f.write(blob[:k % max(1, len(blob))])
    try:
        for o in b["ops"]:
            o_k = o["k"]
            i = o["i"]
            if o["op"] in ("run", "raise", "crash"):
                run(i, o["op"], d)
            elif o["op"] == "nodir":
                if i in mine and os.path.exists(mine[i]):
                    import shutil
                    shutil.copy(mine[i], os.path.join("None", os.path.basename(mine[i])))
                run(i, "run", None)
            elif i in mine and os.path.exists(mine[i]):
                if o["op"] == "remove":
                    os.remove(mine[i])
                elif o["op"] == "cut":
                    cut(mine[i], open(mine[i], "rb").read(), o["k"])
                elif o["op"] == "junk":
                    with open(mine[i], "wb") as f:
                        f.write(np.random.RandomState(o["k"]).bytes(o["k"]) + b"\x00junk")
                else:
                    with open(mine[i], "wb") as f:
                        pickle.dump([7, [1, 2, 3], "text", None][o["k"] % 4], f)
                ev.append(dict(op="fault", i=i, to="none" if o["op"] == "remove" else "cut"))
    finally:
        os.chdir(back)
        import shutil
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(work, ignore_errors=True)
    return ev


def many(seed):
    """a directory shared by many operations: different inputs or descriptions never meet"""
    import shutil
    from smt.utils.caching import cached_operation
    d = tempfile.mkdtemp(prefix="c22_")
    r = np.random.RandomState(seed)
    A = r.rand(3, 2)
    ids = {}
    ev = []

    def op(k, desc):
        i = ids.setdefault((k, desc), len(ids) + 1)
        before = sorted(os.listdir(d))
        inp = dict(x=A + k, tag="run", opts=dict(n=k % 3)) if seed % 2 else dict(self=Owner(A * (k + 1)), k=k // 2)
        hit = False
        with Quiet():
            with cached_operation(inp, d, desc) as o:
                if o:
                    hit = True
                else:
                    o.update(compute(i, seed))
                out = dict(o)
        fresh = compute(i, seed)
        ev.append(dict(op="run", i=i, dir=True, res="done", got="done", hit=hit, wrote=sorted(os.listdir(d)) != before,
                       out=digest(*[out[k] for k in ("sol", "n")]) if "sol" in out and "n" in out else "-", fresh=digest(fresh["sol"], fresh["n"])))
    try:
        for k in range(100):
            op(k, "model")
            if k % 5 == 0:
                op(k, "other"); op(k, "")
            if k % 9 == 0:
                op(int(r.randint(k + 1)), "model")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


VAR = {"RBF": [dict(d0=0.7), dict(d0=0.9), dict(d0=0.7, poly_degree=1)],
       "RMTB": [dict(num_ctrl_pts=6), dict(num_ctrl_pts=7), dict(num_ctrl_pts=6, energy_weight=1e-2)],
       "RMTC": [dict(num_elements=2), dict(num_elements=3), dict(num_elements=2, energy_weight=1e-2)],
       "IDW": [dict(p=2.5), dict(p=3.0), dict(p=2.0)], "LS": [{}] * 3, "QP": [{}] * 3}


def model(b):
    import smt.surrogate_models as S
    c = b["c"]
    kind = c["kind"]
    nx = 1 + c["seed"] % 2
    d = tempfile.mkdtemp(prefix="c22_")
    ev = []
    cls = getattr(S, kind)
    wide = [zoo.limits(nx), zoo.limits(nx) + np.array([[-0.3, 0.4]]), zoo.limits(nx) * 1.0 + np.array([[-2.0, 3.0]])]

    def build(v, x, data_dir, energy):
        kw = dict(print_global=False); kw.update(VAR[kind][v])
        if data_dir:
            kw["data_dir"] = data_dir
        if kind in ("RMTB", "RMTC"):
            kw.update(xlimits=wide[x].copy(), solver="lu", derivative_solver="lu", save_energy_terms=energy, nonlinear_maxiter=4)
        return cls(**kw)
    Q = zoo.points(4, nx, 5)
    state = dict(v=0, x=0, data=1, energy=False)
    m = build(0, 0, d, False)

    def points(k):
        X = zoo.doe(11 + 3 * (k == 3), nx, 40 + k)
        return X, zoo.f_smooth(X)[0] * (1 + 0.1 * k)

    def answers(s, X):
        with Quiet():
            y = s.predict_values(Q); dd = s.predict_derivatives(Q, nx - 1)
            o = s.predict_output_derivatives(Q)[None] if s.supports["output_derivatives"] else np.zeros(1)
        return fxs(y), fxs(dd, 10.0), fxs(o)
    X, Y = points(1)
    m.set_training_values(X, Y)
    try:
        for o in b["ops"]:
            if o["op"] == "new":
                state.update(x=o["k"] % 3, energy=state["energy"])
                m = build(state["v"], state["x"], d, state["energy"])
                m.set_training_values(X, Y)
            elif o["op"] == "set":
                X, Y = points(o["i"]); m.set_training_values(X, Y)
            elif o["op"] == "option":
                state["v"] = o["i"] - 1
                m = build(state["v"], state["x"], d, state["energy"]); m.set_training_values(X, Y)
            elif o["op"] == "energy":
                state["energy"] = not state["energy"]
                m = build(state["v"], state["x"], d, state["energy"]); m.set_training_values(X, Y)
            elif o["op"] == "fault":
                fs = sorted(os.listdir(d))
                if fs:
                    p = os.path.join(d, fs[o["k"] % len(fs)])
                    blob = open(p, "rb").read()
                    if o["i"] == 1:
                        os.remove(p)
                    else:
                        with open(p, "wb") as f:
                            f.write(blob[:o["k"] % max(1, len(blob))])
            else:
                n0 = len(os.listdir(d))
                res, _ = attempt(m.train)
                ref = build(state["v"], state["x"], None, False); ref.set_training_values(X, Y)
                with Quiet():
                    ref.train()
                y, dd, oo = answers(ref, X)
                e = dict(op="model", res=res, y=[], d=[], o=[], ref=y, refd=dd, refo=oo)
                if res == "ok":
                    e["y"], e["d"], e["o"] = answers(m, X)
                ev.append(e)
                # the same training by a new object finds what was saved
                twin = build(state["v"], state["x"], d, state["energy"]); twin.set_training_values(X, Y)
                attempt(twin.train)
                n1 = len(os.listdir(d))
                twin = build(state["v"], state["x"], d, state["energy"]); twin.set_training_values(X, Y)
                res2, _ = attempt(twin.train)
                ev.append(dict(op="again", newfiles=len(os.listdir(d)) - n1))
                e = dict(op="model", res=res2, y=[], d=[], o=[], ref=y, refd=dd, refo=oo)
                if res2 == "ok":
                    e["y"], e["d"], e["o"] = answers(twin, X)
                ev.append(e)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return ev


def run(ctx):
    ctx.model_check("Cache", {"Inputs": tlaset([1, 2, 3] if ctx.thorough else [1, 2]), "MaxRuns": ctx.n(6, 8)}, ["Transparent"], ["NoDirNoFile", "GoodIsKept"])
    bs = ctx.generate("CacheGen", {"MaxOps": ctx.n(12, 24)}, num=ctx.n(260, 1500), depth=ctx.n(16, 28))
    jobs = []
    for i, b in enumerate(bs):
        kind = b["c"]["kind"]
        key = kind + ("-fam%d" % b["c"]["fam"] if kind == "raw" else "")
        jobs.append(("%s-%d" % (key, i), dict(), (lambda b=b: raw(b) if b["c"]["kind"] == "raw" else model(b)), dict(key=key, limit=150)))
    for s in range(ctx.n(4, 12)):
        jobs.append(("many-%d" % s, dict(), (lambda s=s: many(ctx.seed + s)), dict(key="many", limit=60)))
    ctx.validate("CacheTrace", parallel(jobs))
