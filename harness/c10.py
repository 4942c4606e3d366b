"""C10: declared capabilities (spec/Caps.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo

FL = ("training_derivatives", "derivatives", "output_derivatives", "variances", "variance_derivatives", "adjoint_api")


def snapshot(sm):
    d = {}
    for name, g in sm.training_points.items():
        for k, (x, y) in g.items():
            d[(str(name), k)] = digest(x, y)
    return d


def play(sm, c, cap, nx, ny, walk, seed, box=None):
    D = zoo.Data(c, zoo.npoints(c, nx), nx, ny, seed)
    probe = zoo.points(3, nx, 8)
    ev = []
    trained = False
    for q in walk:
        op = q["op"]
        k = [0, 1, 2, 3, -1, nx, nx - 1, -nx][q["k"]]
        if op == "flags":
            ev.append(dict(op=op, flags={f: bool(sm.supports[f]) for f in FL}))
        elif op == "setdata":
            res, _ = attempt(D.load, sm, cap, cap["need"])
            ev.append(dict(op="setdata", res=res))
            if cap["need"]:
                for kk in range(nx):
                    ev.append(dict(op="settd", k=kk, res="ok", n=0, shape=[], finite=True, same=True))
            trained = False
        elif op == "train":
            if not any(e["op"] == "setdata" for e in ev):
                continue
            # derivatives, when set, must be set for every input
            if any(e["op"] == "settd" and e["res"] == "ok" for e in ev) and not cap["need"]:
                for kk in range(nx):
                    sm.set_training_derivatives(D.X, D.dY[kk], kk)
                    ev.append(dict(op="settd", k=kk, res="ok", n=0, shape=[], finite=True, same=True))
            np.random.seed(1)
            res, _ = attempt(sm.train)
            trained = res == "ok"
            ev.append(dict(op="train", res=res))
        else:
            before = snapshot(sm)
            pb = None
            if trained:
                with Quiet():
                    pb = sm.predict_values(probe)
            n = q["n"] if op != "vd" else 1
            x = zoo.points(n, nx, q["seed"])
            val = None
            if op == "settd":
                r = (lambda: sm.set_training_derivatives(D.X, D.dY[k % nx], k))
            elif op == "updtd":
                r = (lambda: sm.update_training_derivatives(D.dY[k % nx], k))
            elif op == "der":
                r = (lambda: sm.predict_derivatives(x, k))
            elif op == "od":
                r = (lambda: sm.predict_output_derivatives(x))
            elif op == "var":
                r = (lambda: sm.predict_variances(x))
            else:
                r = (lambda: sm.predict_variance_derivatives(x))
            res, val = attempt(r)
            same_ = True
            if res != "ok":
                same_ = snapshot(sm) == before
                if trained:
                    with Quiet():
                        same_ = same_ and same(pb, sm.predict_values(probe))
            fin = True
            sh = []
            if res == "ok" and op not in ("settd", "updtd"):
                a = list(val.values()) if isinstance(val, dict) else [val]
                fin = len(a) > 0 and all(bool(np.all(np.isfinite(np.asarray(v, dtype=float)))) for v in a)
                if not isinstance(val, dict):
                    sh = shape(val)
                    if op == "var" and c["kind"] == "MGP":
                        sh = [n, ny] if np.size(val) == n * ny else sh
            ev.append(dict(op=op, k=k, n=n, res=res, shape=sh, finite=fin, same=same_))
    return ev


def run(ctx):
    ctx.model_check("Caps", {"NX": ctx.n(2, 3)}, ["RefusedChangesNothing", "NothingOutOfRange", "UndeclaredNeverAnswered"])
    recs = configs(ctx, mgp=True)
    walks = ctx.generate("CapsGen", {"Depth": ctx.n(24, 60)}, num=300, depth=65)
    jobs, w = [], 0
    for r in recs:
        c, cap = r["cfg"], r["cap"]
        for nx, ny in [(2, 1), (3, 1), (2, 2), (1, 1)]:
            if (ny > 1 and not cap["my"]) or (nx == 1 and not cap["one"]) or (c["kind"] in ("RMTB", "RMTC") and nx > 2):
                continue
            wk = walks[w % len(walks)]; w += 1
            key = "%s/x%dy%d" % (zoo.name_of(c), nx, ny)
            usable = dict(training_derivatives=True, derivatives=cap["der"], output_derivatives=True, variances=True, variance_derivatives=cap["vd"], adjoint_api=False)
            jobs.append((key, dict(nx=nx, ny=ny, decl=cap["decl"], usable=usable),
                         (lambda c=c, cap=cap, nx=nx, ny=ny, wk=wk, w=w: play(zoo.build(c, nx), c, cap, nx, ny, wk, w % 7)), dict(key=key, limit=120)))
    # a mixed-integer wrapper offers values, and variances when the wrapped model does
    from smt.applications.mixed_integer import MixedIntegerSurrogateModel, FLOAT, INT
    for kind, corr in (("KRG", "squar_exp"), ("IDW", "-"), ("RBF", "-"), ("LS", "-"), ("QP", "-"), ("RMTB", "-"), ("KPLS", "squar_exp"), ("GEKPLS", "squar_exp")):
        rr = [r for r in recs if r["cfg"]["kind"] == kind and r["cfg"]["corr"] == corr][0]
        decl = {f: f == "variances" and rr["cap"]["decl"]["variances"] for f in FL}
        for ny in (1, 2):
            if ny > 1 and not rr["cap"]["my"]:
                continue
            for rep in range(2):
                wk = walks[w % len(walks)]; w += 1
                def go(rr=rr, ny=ny, wk=wk, w=w, decl=decl):
                    inner = zoo.build(rr["cfg"], 2)
                    fl = dict(inner.supports)
                    sm = MixedIntegerSurrogateModel([FLOAT, INT], zoo.limits(2), inner)
                    ev = [e for e in play(sm, rr["cfg"], dict(need=False), 2, ny, wk, w % 7) if rr["cap"]["need"] is False or e["op"] not in ("train",) and e.get("op") != "setdata"]
                    return ev + [dict(op="flags", flags={f: bool(sm.supports[f]) for f in FL})] if fl == inner.supports else ev + [dict(op="Crash", exc="wrapped flags changed")]
                if rr["cap"]["need"]:
                    wk = [q for q in wk if q["op"] not in ("setdata", "train")]
                key = "Mixed%s/y%d" % (kind, ny)
                jobs.append((key, dict(nx=2, ny=ny, decl=decl, usable={f: True for f in FL}), (lambda go=go: go()), dict(key=key)))
    ctx.validate("CapsTrace", parallel(jobs))
