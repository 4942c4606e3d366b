"""C39: objects do not interfere (spec/Isolate.tla)."""
import copy, pickle, struct, threading
from harness.core import *
from harness.scen import parallel
from harness import zoo
from harness import c03

KINDS = ["LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MGP", "GENN", "LHS", "LHSese", "Random", "Full", "problem", "mixed", "VFM", "LU", "Krylov"]
OPTS = {"IDW": [("p", 2.0), ("p", 3.0), ("p", 2.5)], "RBF": [("d0", 1.3), ("d0", 0.8), ("poly_degree", 1)],
        "RMTB": [("energy_weight", 1e-2), ("num_ctrl_pts", 7), ("approx_order", 2)], "RMTC": [("energy_weight", 1e-2), ("num_elements", 3), ("approx_order", 2)],
        "KRG": [("poly", "linear"), ("corr", "matern32"), ("theta0", [0.3])], "KPLS": [("poly", "linear"), ("n_comp", 2), ("theta0", [0.3])],
        "KPLSK": [("poly", "linear"), ("nugget", 1e-8), ("theta0", [0.3])], "GEKPLS": [("extra_points", 1), ("delta_x", 0.05), ("poly", "linear")],
        "MFK": [("rho_regr", "linear"), ("poly", "linear"), ("nugget", 1e-8)], "MFKPLS": [("rho_regr", "linear"), ("poly", "linear"), ("nugget", 1e-8)],
        "MGP": [("n_comp", 1), ("nugget", 1e-8), ("theta0", [0.7])], "GENN": [("alpha", 0.1), ("lambd", 0.2), ("seed", 3)]}
NX = 2


class Thing:
    """one object with its operations; arrays: the caller's arrays, possibly shared by all objects"""
    def __init__(self, kind, arrays, pin, seed):
        self.kind, self.arrays, self.pin, self.seed = kind, arrays, pin, seed
        self.trained = False
        self.data = None
        self.opts = {}
        self.sm = self.make()

    def make(self):
        import smt.surrogate_models as S
        import smt.applications as A
        import smt.sampling_methods as G
        import smt.problems as Q
        import smt.utils.linear_solvers as L
        k = self.kind
        xl = self.arrays["xl"]
        if k in ("LHS", "LHSese"):
            return dict(cls=G.LHS, kw=dict(xlimits=xl, criterion="ese" if k == "LHSese" else "m", random_state=self.seed))
        if k == "Random":
            return dict(cls=G.Random, kw=dict(xlimits=xl))
        if k == "Full":
            return dict(cls=G.FullFactorial, kw=dict(xlimits=xl))
        if k == "problem":
            return None
        if k == "LU":
            s = L.get_solver("lu"); s.options["print_init"] = s.options["print_solve"] = False
            return s
        if k == "Krylov":
            s = L.KrylovSolver(pc="gs", ilimit=200, atol=1e-13); s.options["print_init"] = s.options["print_solve"] = False
            return s
        kw = dict(print_global=False)
        if k in ("RMTB", "RMTC", "GEKPLS"):
            kw["xlimits"] = xl
        if k in ("RMTB", "RMTC"):
            kw.update(solver="lu", nonlinear_maxiter=3); kw.update(dict(num_ctrl_pts=6) if k == "RMTB" else dict(num_elements=2))
        if k in ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS"):
            kw.update(theta0=self.arrays["theta0"], theta_bounds=[0.5 - 1e-6, 0.5 + 1e-6] if self.pin else [1e-2, 20.0])
        if k == "GEKPLS":
            kw.update(n_comp=1)
        if k == "MGP":
            kw.update(n_comp=1)
        if k == "GENN":
            kw.update(num_epochs=2, num_iterations=4, is_print=False, seed=7)
        if k == "VFM":
            return kw
        if k == "mixed":
            from smt.applications.mixed_integer import MixedIntegerContext, FLOAT, INT
            return MixedIntegerContext([FLOAT, INT], self.arrays["mixlim"]).build_surrogate_model(S.KRG(theta0=self.arrays["theta0"], theta_bounds=[1e-2, 20.0], print_global=False))
        return (getattr(S, k, None) or getattr(A, k))(**kw)

    def plain(self):
        return self.kind in ("LHS", "LHSese", "Random", "Full", "problem", "LU", "Krylov")

    def set(self, v, d):
        self.data = (v, d)
        if self.plain() or self.kind == "VFM":
            return
        X, Y, dY, XL, YL = self.arrays["data"][(v, d)]
        if self.kind == "mixed":
            self.sm.set_training_values(self.arrays["mixdata"][(v, d)][0], self.arrays["mixdata"][(v, d)][1])
            return
        if self.kind in ("MFK", "MFKPLS"):
            self.sm.set_training_values(XL, YL, name=0)
        self.sm.set_training_values(X, Y)
        if self.kind in ("GEKPLS", "GENN", "RMTB"):
            for j in range(NX):
                self.sm.set_training_derivatives(X, dY[j], j)

    def opt(self, v):
        if self.kind in OPTS:
            o, x = OPTS[self.kind][v - 1]
            self.sm.options[o] = copy.deepcopy(x)

    def train(self):
        np.random.seed(99)
        from smt.applications import VFM
        from smt.utils.printer import Printer
        X, Y, dY, XL, YL = self.arrays["data"][self.data]
        if self.kind == "VFM":
            self.vfm = VFM(type_bridge="Additive", name_model_LF="RBF", name_model_bridge="KRG", X_LF=XL, y_LF=YL, X_HF=X, y_HF=Y, options_LF=self.arrays["lfopt"], options_bridge=self.arrays["bropt"])
            self.vfm.predict_values(X[:1])
        elif self.kind in ("LU", "Krylov"):
            import scipy.sparse
            p = Printer(); p.active = False
            n = 4 + self.data[0]
            A = np.diag(np.full(n, 3.0 + self.data[1])) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1)
            self.n = n
            self.sm._setup(scipy.sparse.csc_matrix(A), p)
        elif not self.plain():
            self.sm.train()
        self.trained = True

    def ask(self, v):
        """res, row of numbers"""
        a = self.arrays
        P = a["P"]
        k = self.kind
        try:
            if k in ("LHS", "LHSese", "Random", "Full"):
                np.random.seed(5)
                y = self.sm["cls"](**self.sm["kw"])([5, 8, 12][v - 1])
            elif k == "problem":
                import smt.problems as Q
                y = [Q.TensorProduct(ndim=2, func="tanh", width=5.0), Q.RobotArm(ndim=2), Q.Rosenbrock(ndim=2)][v - 1](a["U"], kx=None if self.seed % 2 else 0)
            elif not self.trained:
                return None
            elif k in ("LU", "Krylov"):
                y = self.sm._solve(np.arange(1.0, self.n + 1) * v, np.zeros(self.n))
            elif k == "VFM":
                y = self.vfm.predict_values(P) if v != 2 else self.vfm.predict_derivatives(P, 1)
            elif k == "mixed":
                y = self.sm.predict_values(a["mixP"]) if v != 2 else self.sm.predict_variances(a["mixP"])
            elif v == 1:
                y = self.sm.predict_values(P)
            elif v == 2:
                y = self.sm.predict_variances(P) if self.sm.supports["variances"] else self.sm.predict_values(P[:2])
            else:
                y = self.sm.predict_derivatives(P, 1)
            y = np.asarray(y, float)
            return "ok", fxs(y.ravel(), 100.0 if k == "problem" else 10.0)
        except Exception as e:
            return type(e).__name__, []


def arrays(seed):
    a = dict(xl=zoo.limits(NX), theta0=[0.5], P=zoo.points(6, NX, seed), U=zoo.points(6, NX, seed + 1) * 0.1 + 0.7, data={}, mixdata={}, mixlim=[[0.0, 4.0], [-2, 3]],
             lfopt=dict(print_global=False, d0=1.0), bropt=dict(print_global=False, theta0=[0.5]))
    r = np.random.RandomState(seed)
    a["mixP"] = np.c_[r.uniform(0, 4, 5), r.randint(-2, 4, 5)].astype(float)
    for v in (1, 2, 3):
        for d in (1, 2):
            n = 11 + 2 * d if v < 3 else 15
            XL = zoo.doe(2 * n, NX, 10 * d + 1); X = XL[::2].copy()
            Y, dY = zoo.f_smooth(X)
            s = 1 + 0.4 * (v - 1)
            YL = zoo.low_fi(zoo.f_smooth(XL)[0], XL, 1)
            a["data"][(v, d)] = (X, s * Y, [s * k for k in dY], XL, s * YL)
            M = np.c_[r.uniform(0, 4, n), r.randint(-2, 4, n)].astype(float)
            a["mixdata"][(v, d)] = (M, s * (np.sin(M[:, :1]) + 0.3 * M[:, 1:]))
    return a


def snapshot(a):
    return pickle.dumps({k: a[k] for k in sorted(a)})


NAMES = {1: "first", 2: "second", 3: "third"}


def apply(thing, o):
    """-> event fields (op, what, ...) or None"""
    if o["op"] == "set":
        thing.set(o["v"], o["d"])
        return dict(op="do", what="set%d%d" % (o["v"], o["d"]))
    if o["op"] == "opt":
        thing.opt(o["v"])
        return dict(op="do", what="opt%d" % o["v"])
    if o["op"] == "train":
        if thing.data is None:
            return None
        thing.train()
        return dict(op="do", what="train")
    r = thing.ask(o["v"])
    return None if r is None else dict(op="ask", what=NAMES[o["v"]], res=r[0], y=r[1], kind=thing.kind, tol=TOL.get(thing.kind, 60))


TOL = {"KRG": 300, "KPLS": 300, "KPLSK": 300, "GEKPLS": 300, "MFK": 600, "MFKPLS": 600, "MGP": 600, "mixed": 300, "VFM": 300}


def apart(fn):
    """fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception:
                import traceback
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    res, out = pickle.loads(blob)
    if res != "ok":
        raise RuntimeError(out)
    return out


def play(b):
    c = b["c"]
    threads = c["mode"].strip() == "threads"
    kinds = [KINDS[k - 1] for k in c["kinds"]]
    safe = ("LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "LU", "Full", "LHS", "Krylov")
    if threads:
        kinds = [k if k in safe else safe[c["seed"] % len(safe)] for k in kinds]
    ops = [o for o in b["ops"] if not (threads and o["op"] in ("copy", "new"))]
    seed = c["seed"]
    mode_pin = threads
    # the own history of every object, copies followed back to their original
    own, lives = {}, []
    for i in (1, 2, 3):
        own[i] = len(lives); lives.append([])
    plan = []               # (life, op) in program order
    for o in ops:
        i = o["i"]
        if o["op"] == "new":
            own[i] = len(lives); lives.append([]); plan.append((own[i], dict(o, kind=kinds[i - 1])))
        elif o["op"] == "copy":
            plan.append((None, o))
        else:
            plan.append((own[i], o))

    def alone(life_ops, kind):
        def go():
            with Quiet():
                th = Thing(kind, arrays(seed), mode_pin, seed)
                return [apply(th, o) for o in life_ops]
        return apart(go)
    # what each object does by itself (a copy: the life of its original up to the copy, then its own)
    life = {i: (kinds[i - 1], []) for i in (1, 2, 3)}
    scripts = []
    can = {}

    def copyable(kind):
        if kind not in can:
            def go():
                th = Thing(kind, arrays(seed), mode_pin, seed)
                with Quiet():
                    th.set(1, 1); th.train()
                    try:
                        q = duplicate(th)
                        return q.ask(1) is not None
                    except Exception:
                        return False
            can[kind] = apart(go)
        return can[kind]
    steps = []
    for o in ops:
        i = o["i"]
        if o["op"] == "new":
            scripts.append(life[i]); life[i] = (kinds[i - 1], [])
        elif o["op"] == "copy":
            if kinds[i - 1] not in ("LHS",) and not copyable(life[i][0]):
                continue
            j = o["v"]
            scripts.append(life[j]); life[j] = (life[i][0], list(life[i][1]))
        else:
            life[i][1].append(o)
        steps.append(o)
    scripts += [life[i] for i in (1, 2, 3)]
    ev = []
    n = 0
    for kind, script in scripts:
        if not script:
            continue
        n += 1
        ev.append(dict(op="new", i=4, kind=kind))
        ev += [dict(e, i=4) for e in alone(script, kind) if e is not None]
    # all together
    common = arrays(seed)
    before = snapshot(common)
    things = {}
    with Quiet():
        for i in (1, 2, 3):
            things[i] = Thing(kinds[i - 1], common if c["shared"] else arrays(seed), mode_pin, seed)
            ev.append(dict(op="new", i=i, kind=kinds[i - 1]))
        if threads:
            logs = {i: [] for i in things}
            gate = threading.Barrier(3)

            def work(i):
                gate.wait()
                for _ in range(2):
                    for o in steps:
                        if o["i"] == i:
                            try:
                                e = apply(things[i], o)
                            except Exception as x:
                                e = dict(op="equal", ok=False, what="failed-in-thread-" + type(x).__name__)
                            if e is not None:
                                logs[i].append(dict(e, i=i))
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-4)
            ts = [threading.Thread(target=work, args=(i,)) for i in things]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
            for i in logs:
                ev += logs[i]
        else:
            for o in steps:
                i = o["i"]
                if o["op"] == "new":
                    things[i] = Thing(kinds[i - 1], common if c["shared"] else arrays(seed), mode_pin, seed)
                    ev.append(dict(op="new", i=i, kind=kinds[i - 1]))
                elif o["op"] == "copy":
                    things[o["v"]] = duplicate(things[i])
                    kinds[o["v"] - 1] = kinds[o["v"] - 1]
                    ev.append({"op": "copy", "i": o["v"], "from": i})
                else:
                    e = apply(things[i], o)
                    if e is not None:
                        ev.append(dict(e, i=i))
    ev.append(dict(op="equal", ok=snapshot(common) == before, what="shared-arrays-changed"))
    return ev


def duplicate(th):
    q = object.__new__(Thing)
    q.__dict__.update(th.__dict__)
    q.sm = copy.deepcopy(th.sm)
    if hasattr(th, "vfm"):
        q.vfm = copy.deepcopy(th.vfm)
    return q


def run(ctx):
    ctx.model_check("Isolate", {"Objs": tlaset([1, 2]), "Vers": tlaset([1, 2] if ctx.thorough else [1]), "MaxOps": ctx.n(6, 6)}, ["Alone", "Same"], ["OneAtATime"])
    bs = ctx.generate("IsolateGen", {"Depth": ctx.n(20, 45), "NKinds": len(KINDS), "NObjs": 3}, num=ctx.n(161, 966), depth=ctx.n(30, 50))
    # loaded once (every scenario runs in a process of its own, where nothing was built before)
    import smt.surrogate_models, smt.applications, smt.applications.mixed_integer, smt.sampling_methods, smt.problems, smt.utils.linear_solvers, scipy.sparse
    jobs = []
    for i, b in enumerate(bs):
        # every class in turn; those of its class stay of its class
        k = b["c"]["kinds"]
        one = i % len(KINDS) + 1
        b["c"]["kinds"] = [one if x == k[0] else x for x in k]
        key = b["c"]["mode"].strip() + "-" + "-".join(KINDS[k - 1] for k in b["c"]["kinds"])
        jobs.append(("%s-%d" % (key, i), dict(n=4), (lambda b=b: play(b)), dict(key=key, limit=150)))
    ctx.validate("IsolateTrace", parallel(jobs, size=1))
