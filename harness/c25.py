"""C25: linear solvers (spec/LinSolve.tla)."""
from harness.core import *
from harness.scen import parallel
import scipy.sparse


def matrix(q, kind):
    r = np.random.RandomState(q["seed"])
    n = q["n"]
    m = q["mat"] if kind == "any" else ("laplace" if kind == "mg" else ("spd" if q["mat"] == "general" else q["mat"]))
    if m == "general":
        A = r.randint(-4, 5, (n, n)).astype(float)
        A += np.diag(np.where(np.diag(A) < 0, -1, 1) * 2.0)
        p = r.permutation(n)
        A = A[p]
        if abs(np.linalg.det(A)) < 0.5 or np.linalg.cond(A) > 300:
            A = A + np.diag([9.0 * (1 if i % 2 else -1) for i in range(n)])
        if np.linalg.cond(A) > 300:
            A = np.eye(n)[p] * 3.0
    elif m == "spd":
        B = r.randint(-2, 3, (n, n)).astype(float)
        B = (B + B.T) * (r.rand(n, n) < 0.6)
        B = np.triu(B, 1)
        B = B + B.T
        A = B + np.diag(np.abs(B).sum(1) + r.randint(1, 4, n))
    else:
        A = np.diag([2.0 + r.randint(0, 2)] * n) - np.diag([1.0] * (n - 1), 1) - np.diag([1.0] * (n - 1), -1)
    return A


def interpolation(n):
    """1-D linear interpolation operators n -> n//2 -> ... for n = 2^k - 1"""
    ops = []
    while n > 1 and n % 2 == 1:
        c = n // 2
        P = np.zeros((n, c))
        for j in range(c):
            P[2 * j, j] += 0.5
            P[2 * j + 1, j] = 1.0
            P[2 * j + 2, j] += 0.5
        ops.append(scipy.sparse.csc_matrix(P))
        n = c
        if c < 1:
            break
    return ops


def make(name):
    from smt.utils import linear_solvers as L
    if name in ("dense-lu", "dense-chol", "lu", "krylov", "krylov-dense", "krylov-lu", "krylov-mg"):
        s = L.get_solver(name)
    elif name.endswith("-get"):
        s = L.get_solver(L.get_solver(name[:-4]))
    elif name in ("krylov-ilu", "krylov-gs", "krylov-jacobi"):
        s = L.KrylovSolver(pc=name[7:], ilimit=200)
    elif name == "krylov-mgsmooth":
        s = L.KrylovSolver(pc=L.MultigridSolver(solver=L.StationarySolver(solver="jacobi", damping=0.7, ilimit=2), mg_cycles=3), ilimit=200)
    elif name == "krylov-bicgstab" or name == "krylov-gmres":
        s = L.KrylovSolver(solver=name[7:], ilimit=200, atol=1e-13)
    elif name == "gs":
        s = L.StationarySolver(solver="gs", ilimit=600)
    elif name == "gs-damped":
        s = L.StationarySolver(solver="gs", ilimit=900, damping=1.3)
    elif name == "jacobi":
        s = L.StationarySolver(solver="jacobi", ilimit=3000, damping=0.9)
    elif name == "mg-clone":
        s = L.MultigridSolver(solver=L.StationarySolver(solver="jacobi", damping=0.6, ilimit=4), mg_cycles=60)
    else:
        s = L.MultigridSolver(solver=name[3:], mg_cycles=40)
    for k in ("print_init", "print_solve"):
        s.options[k] = False
    return s


DENSE = ("dense-lu",)
ITER = lambda s: not (s in ("dense-lu", "dense-chol", "lu", "lu-get"))


def play(b):
    from smt.utils.printer import Printer
    name = b["solver"]
    s = make(name)
    printer = Printer()
    printer.active = False
    kind = "any" if name in ("dense-lu", "lu", "lu-get") else ("mg" if "mg" in name else "spd")
    ev, A, M = [], None, None
    for q in b["walk"]:
        if q["op"] == "setup":
            if kind == "mg":
                q = dict(q, n={1: 1, 2: 3, 3: 3, 5: 7, 7: 15}[q["n"]])
            A = matrix(q, kind)
            if name in DENSE:
                M = A.copy()
            else:
                M = scipy.sparse.csc_matrix(A)
            kw = dict(mg_matrices=interpolation(len(A))) if kind == "mg" and name != "krylov-mg" else {}
            res, _ = attempt(lambda: s._setup(M, printer, **kw))
            ev.append(dict(op="setup", res=res, mat=[[int(v) for v in r] for r in A], kept=same(np.asarray(M.todense()) if name not in DENSE else M, A)))
            continue
        r = np.random.RandomState(q["seed"])
        n = len(A)
        form = q["form"]
        if form == "multi" and ITER(name):
            form = "col"
        k = 3 if form == "multi" else 1
        X = r.randint(-9, 10, (n, k)).astype(float)
        Bm = A.dot(X)
        g = dict(zero=np.zeros((n, k)), random=r.uniform(-5, 5, (n, k)), rhs=Bm.copy())[q["guess"]]
        rhs = Bm.copy() if form == "multi" else np.ascontiguousarray(Bm[:, 0])
        hold = None
        if form == "none":
            sol = None
        elif form == "vec":
            sol = g[:, 0].copy()
        elif form == "multi":
            sol = g.copy()
        else:
            hold = np.full((n, 3), 7.5, order="F" if form == "fcol" else "C") if form != "strided" else np.full((3, 2 * n), 7.5)
            sol = hold[:, 1] if form != "strided" else hold[1, ::2]
            sol[:] = g[:, 0]
        krhs = rhs.copy()
        res, out = attempt(lambda: s._solve(rhs, sol) if sol is not None else s._solve(rhs))
        e = dict(op="solve", form=form, guess=q["guess"], res=res)
        if res == "ok":
            got = out if sol is None else sol
            got = np.asarray(got, float).reshape(n, -1) if got is not None else np.full((n, k), np.nan)
            e["inplace"] = sol is None or (out is not None and np.array_equal(np.asarray(out).reshape(n, -1), got, equal_nan=True))
            e["sols"] = [fxs(got[:, j]) for j in range(k)]
            e["truth"] = [fxs(X[:, j]) for j in range(k)]
            e["rhs"] = [[int(v) for v in Bm[:, j]] for j in range(k)]
            e["kept"] = same(rhs, krhs)
            e["matkept"] = same(np.asarray(M.todense()) if name not in DENSE else M, A)
            if hold is None:
                e["others"] = True
            else:
                h = hold.copy()
                if form == "strided":
                    h[1, ::2] = 7.5
                else:
                    h[:, 1] = 7.5
                e["others"] = bool((h == 7.5).all())
        ev.append(e)
    return ev


def sweeps(k):
    """the stationary iterations, step by step"""
    from smt.utils import linear_solvers as L
    from smt.utils.printer import Printer
    printer = Printer(); printer.active = False
    r = np.random.RandomState(k)
    ev = []
    for kind in ("gs", "jacobi"):
        for wn in (5, 7, 10, 13):
            s = L.StationarySolver(solver=kind, ilimit=1, damping=wn / 10.0)
            for o in ("print_init", "print_solve"):
                s.options[o] = False
            A = matrix(dict(seed=int(r.randint(1000)), n=int(r.randint(1, 5)), mat="spd"), "spd")
            n = len(A)
            s._setup(scipy.sparse.csc_matrix(A), printer)
            b = r.randint(-9, 10, n).astype(float)
            x = r.uniform(-3, 3, n)
            for _ in range(3):
                x0 = x.copy()
                s._solve(b.copy(), x)
                if np.max(np.abs(x)) > 50:
                    break
                ev.append(dict(op="sweep", res="ok", kind=kind, mat=[[int(v) for v in q] for q in A], wn=wn, rhs=[int(v) for v in b], x0=fxs(x0), x1=fxs(x)))
    return ev


def run(ctx):
    ctx.model_check("LinSolve", {"Entries": tlaset([0, 1, 2]), "MaxOps": ctx.n(2, 3)}, ["AllSolved"], ["OneColumn"])
    bs = ctx.generate("LinSolveGen", {"Depth": 14}, num=ctx.n(250, 4000), depth=20)
    jobs = [("walk-%d" % i, dict(solver=b["solver"]), (lambda b=b: play(b)), dict(key="walk", limit=60)) for i, b in enumerate(bs)]
    for k in range(ctx.n(20, 100)):
        jobs.append(("sweeps-%d" % k, dict(solver="stationary"), (lambda k=k: sweeps(ctx.seed * 1000 + k)), dict(key="sweeps", limit=30)))
    ctx.validate("LinSolveTrace", parallel(jobs))
