"""C23: printing obeys its switches, nests and unwinds (spec/Printer.tla)."""
import re, tempfile
from harness.core import *
from harness.scen import parallel
from harness import zoo


class Capture:
    """everything written to standard output, also below python"""
    def __enter__(self):
        sys.stdout.flush()
        self.f = tempfile.TemporaryFile()
        self.old, self.oldfd = sys.stdout, os.dup(1)
        os.dup2(self.f.fileno(), 1)
        sys.stdout = os.fdopen(os.dup(1), "w")
        return self

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stdout.close()
        sys.stdout = self.old
        os.dup2(self.oldfd, 1); os.close(self.oldfd)
        self.f.seek(0)
        self.text = self.f.read().decode("utf8", "replace")
        self.f.close()
        return False


def printer_play(b):
    from smt.utils.printer import Printer
    import scipy.sparse as sp
    from smt.utils.linear_solvers import get_solver
    p = Printer()
    stack = []
    ev = []

    def state(e, cap):
        ls = []
        for line in cap.text.splitlines():
            s = line.lstrip(" ")
            k = len(line) - len(s)
            s = re.sub(r"Time \(sec\): +[-0-9.]+$", "Time (sec): #", s)
            ls.append([k // 3 if k % 3 == 0 and not e.pop("flat", False) else 0, s])
        e.pop("flat", None)
        times = []
        neg = True
        for k in ("a", "b", "c"):
            try:
                tt = p._time(k)
            except KeyError:
                tt = []
            times.append(len(tt)); neg = neg and all(x >= 0 for x in tt)
        e.update(lines=ls, depth=int(p.depth), act=bool(p.active), ntimes=times, nonneg=bool(neg))
        return e
    for o in b["ops"]:
        txt = "word%d" % o["w"]
        k = o["op"]
        e = dict(op=k, k=o["k"], b=o["b"], text="")
        with Capture() as cap:
            if k == "say":
                e["text"] = txt
                if o["k"] == 3:
                    e["op"] = "raw"; p(txt, noindent=True)
                else:
                    p(txt)
            elif k == "center":
                e["text"] = txt; e["flat"] = True
                p._center(txt)
            elif k == "title":
                p._title(txt)
            elif k == "break":
                p._line_break()
            elif k == "toggle":
                p.active = o["b"]
            elif k == "maxdepth":
                e["k"] = p.max_print_depth = o["k"] + 2 if o["w"] % 2 else 100
            elif k in ("timed", "quiet"):
                e["op"] = "timed"
                e["text"] = txt if k == "timed" else ""
                cm = p._timed_context(txt if k == "timed" else None, key=[None, "a", "b", "c"][o["k"]])
                cm.__enter__(); stack.append(cm)
            elif k == "active":
                s = get_solver("lu"); s.printer = p
                cm = s._active(o["b"]); cm.__enter__(); stack.append(cm)
            elif k == "solver":
                name = ["lu", "dense-chol", "dense-lu", "krylov"][o["k"]]
                s = get_solver(name)
                s.options["print_init"] = bool(o["b"]); s.options["print_solve"] = o["w"] % 2 == 0
                A = np.diag([1.0, 2.0, -1.0, 4.0]) if o["w"] < 5 else np.zeros((4, 4))
                try:
                    s._setup(sp.csc_matrix(A), p)
                    s._solve(np.ones(4), np.zeros(4))
                except Exception:
                    pass
            elif k == "close":
                stack.pop().__exit__(None, None, None)
            else:
                try:
                    err = ZeroDivisionError("x")
                    stack.pop().__exit__(ZeroDivisionError, err, None)
                except ZeroDivisionError:
                    pass
        if k in ("title", "break"):
            ev.append(dict(op="write", bytes=len(cap.text), what=k))
        elif k == "solver":
            ev.append(dict(op="probe", what=name, depth=int(p.depth), act=bool(p.active), bytes=len(cap.text)))
        else:
            ev.append(state(e, cap))
            if k == "center" and cap.text:
                w = len(cap.text.rstrip("\n"))
                ev.append(dict(op="equal", ok=abs((w - len(txt)) - (75 - w)) <= 1, what="not-centered"))
    return ev


TITLES = ("Problem size", "Training", "Evaluation")


def sections(text):
    return [t for t in TITLES if re.search(r"^ %s$" % t, text, re.M)]


def surrogate_play(c, cap_, nx, switches):
    D = zoo.Data(c, zoo.npoints(c, nx), nx, 1, 4)
    ev = []
    P = zoo.points(3, nx, 8)
    for g, pb, tr, pr in switches:
        over = dict(print_global=g, print_problem=pb, print_training=tr, print_prediction=pr)
        sm = zoo.build(c, nx, **over)

        def event(what, f):
            with Capture() as k:
                try:
                    f()
                except Exception:
                    if what == "train":
                        raise
            ev.append(dict(op="surrogate", what=what, g=g, problem=pb, training=tr, prediction=pr, sections=sections(k.text), bytes=len(k.text), depth=int(sm.printer.depth)))
        event("set", lambda: D.load(sm, cap_))
        event("train", sm.train)
        event("values", lambda: sm.predict_values(P))
        if cap_["der"]:
            event("derivatives", lambda: sm.predict_derivatives(P, 0))
        if cap_["va"]:
            event("variances", lambda: sm.predict_variances(P))
        if cap_["od"]:
            event("outputs", lambda: sm.predict_output_derivatives(P))
        # a refused request leaves the printer as it was
        attempt(sm.predict_values, np.zeros((2, nx + 1)))
        attempt(sm.predict_derivatives, P, nx + 3)
        event("values", lambda: sm.predict_values(P))
        sm.options["print_global"] = not g
        g = not g
        event("values", lambda: sm.predict_values(P))
        event("train", sm.train)
    return ev


def broken_play(kind):
    """a training that fails, then one that succeeds: output as of a new object"""
    import smt.surrogate_models as S
    ev = []

    def mask(t):
        return re.sub(r"[-+]?[0-9]+\.[0-9]+(e[-+][0-9]+)?", "#", t)
    nx = 2
    good = zoo.doe(14, nx, 3)
    y, dy = zoo.f_smooth(good)
    def new():
        if kind == "QP":
            return S.QP(print_global=True)
        if kind == "GEKPLS":
            return S.GEKPLS(xlimits=zoo.limits(nx), n_comp=1, theta0=[0.5])
        if kind in ("RMTB", "RMTC"):
            return getattr(S, kind)(xlimits=zoo.limits(nx), solver="lu")
        return getattr(S, kind)()
    sm = new()
    if kind in ("RMTB", "RMTC"):
        X = good.copy(); X[0, 0] = 99.0
        sm.set_training_values(X, y)
    elif kind == "QP":
        sm.set_training_values(good[:2], y[:2])
    elif kind == "GEKPLS":
        sm.set_training_values(good, y)
    else:
        sm.set_training_values(np.repeat(good[:1], 5, axis=0), y[:5] * np.nan)
    with Capture():
        failed = attempt(sm.train)[0]
    fresh = new()
    out = []
    for m in (sm, fresh):
        m.set_training_values(good, y)
        if kind == "GEKPLS":
            for k in range(nx):
                m.set_training_derivatives(good, dy[k], k)
        np.random.seed(1)
        with Capture() as k:
            m.train(); m.predict_values(good[:3])
        out.append(mask(k.text))
    ev.append(dict(op="equal", ok=out[0] == out[1], what="output-after-a-failed-training" if failed != "ok" else "output-after-another-training"))
    ev.append(dict(op="equal", ok=sm.printer.depth == fresh.printer.depth, what="depth-after-a-failed-training"))
    return ev


def quiet_play(kind):
    """applications with printing off, and surrogates in states that warn"""
    import smt.surrogate_models as S, smt.applications as A
    from smt.applications.moe import MOESurrogateModel
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel, INT as ORD, FLOAT, ENUM
    ev = []
    nx = 2
    X = zoo.doe(24, nx, 6); Y = zoo.f_smooth(X)[0]
    P = X[:3] + 0.01

    def event(what, f):
        with Capture() as k:
            try:
                f()
            except Exception:
                pass
        ev.append(dict(op="silent", what=what, bytes=len(k.text)))
    if kind == "moe":
        m = MOESurrogateModel(n_clusters=2, allow=["KRG", "LS", "IDW"], heaviside_optimization=True)
        m.options["print_global"] = False
        m.set_training_values(X, Y)
        event("moe-train", m.train); event("moe-values", lambda: m.predict_values(P))
    elif kind == "repeated":
        Z = np.vstack([X, X[:2]])
        for C in (S.KRG, S.KPLS):
            m = C(print_global=False, theta0=[0.5]); m.set_training_values(Z, zoo.f_smooth(Z)[0])
            event("repeated-points", m.train); event("repeated-values", lambda: m.predict_values(P))
    elif kind == "theta0":
        for C in (S.KRG, S.KPLS, S.KPLSK):
            m = C(print_global=False, theta0=[1e3], theta_bounds=[1e-2, 20.0]); m.set_training_values(X, Y)
            event("theta0-out-of-bounds", m.train)
        m = S.KRG(print_global=False, theta0=[0.5], eval_noise=True, noise0=[1e-20]); m.set_training_values(X, Y)
        event("noise0-out-of-bounds", m.train)
    elif kind == "singular":
        m = S.KRG(print_global=False, theta0=[0.5], nugget=0.0); m.set_training_values(np.vstack([X[:6]] * 2), np.vstack([Y[:6]] * 2))
        event("singular-correlation", m.train)
    elif kind == "genn":
        dY = zoo.f_smooth(X)[1]
        for batch in (1, 64):
            m = S.GENN(print_global=False, num_epochs=1, num_iterations=4, wide=3, deep=1, mini_batch_size=batch, seed=1)
            m.set_training_values(X, Y)
            for k in range(nx):
                m.set_training_derivatives(X, dY[k], k)
            event("genn-train", m.train); event("genn-values", lambda: m.predict_values(P))
    elif kind == "mixint":
        xt = [FLOAT, (ENUM, 2)]
        m = MixedIntegerSurrogateModel(xt, [[0.0, 1.0], ["a", "b"]], S.KRG(print_global=False, theta0=[0.5]))
        Z = np.c_[np.linspace(0, 1, 8), np.arange(8) % 2]
        m.set_training_values(Z, Z[:, :1] ** 2)
        event("mixint-train", m.train); event("mixint-values", lambda: m.predict_values(Z[:2]))
    elif kind == "ego":
        e = A.EGO(n_iter=2, n_doe=5, criterion="EI", xlimits=np.array([[0.0, 2.0]]), verbose=False, random_state=3)
        event("ego", lambda: e.optimize(fun=lambda x: np.sin(3 * x)))
    elif kind == "mfk":
        m = A.MFK(print_global=False, theta0=[0.5]); m.set_training_values(X, Y * 0.9, name=0); m.set_training_values(X[::2], Y[::2])
        event("mfk-train", m.train); event("mfk-values", lambda: m.predict_values(P))
    elif kind == "mgp":
        m = S.MGP(print_global=False, n_comp=1); m.set_training_values(X[:12], Y[:12])
        event("mgp-train", m.train); event("mgp-values", lambda: m.predict_values(P))
    return ev


def run(ctx):
    ctx.model_check("Printer", {"Keys": tlaset(["a", "b"]), "MaxNest": ctx.n(3, 4), "MaxOps": ctx.n(7, 9)}, ["DepthIsNesting"], ["Unwinds", "Restores", "SilentInactive"])
    bs = ctx.generate("PrinterGen", {"MaxOps": ctx.n(25, 60)}, num=ctx.n(200, 2000), depth=ctx.n(45, 80))
    jobs = [("printer-%d" % i, dict(), (lambda b=b: printer_play(b)), dict(key="printer")) for i, b in enumerate(bs)]
    allsw = [(g, a, b, c) for g in (True, False) for a in (True, False) for b in (True, False) for c in (True, False)]
    recs = configs(ctx)
    seen = {}
    for i, r in enumerate(recs):
        k = r["cfg"]["kind"]
        seen[k] = seen.get(k, 0) + 1
        sw = allsw if ctx.thorough or seen[k] == 1 else [allsw[(i * 5 + j * 3) % 16] for j in range(4)]
        name = zoo.name_of(r["cfg"])
        jobs.append((name, dict(), (lambda r=r, sw=sw: surrogate_play(r["cfg"], r["cap"], 2, sw)), dict(key=name, limit=150)))
    for k in ("QP", "RMTB", "RMTC", "GEKPLS", "KRG", "IDW"):
        jobs.append(("failed-" + k, dict(), (lambda k=k: broken_play(k)), dict(key="failed-" + k, limit=100)))
    for k in ("moe", "repeated", "theta0", "singular", "genn", "mixint", "ego", "mfk", "mgp"):
        jobs.append(("quiet-" + k, dict(), (lambda k=k: quiet_play(k)), dict(key="quiet-" + k, limit=150)))
    ctx.validate("PrinterTrace", parallel(jobs))
