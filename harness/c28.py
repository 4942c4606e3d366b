"""C28: GENN objects (spec/Genn.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import zoo

DEFAULT = dict(gamma=100, lambd=10, alpha=30, beta1=90, beta2=99, deep=2, wide=5, mini_batch_size=64, num_epochs=2, num_iterations=12, seed=1)
PCT = ("gamma", "lambd", "alpha", "beta1", "beta2")
SETS = {1: (7, 1, 1), 2: (9, 2, 1), 3: (8, 2, 2), 4: (11, 3, 1), 5: (10, 1, 3)}      # m, nx, ny
UX = {1: 1.0, 2: 16.0, 3: 0.0625}
UY = {1: 1.0, 2: 1024.0, 3: 0.0078125, 4: 4.0}


def real(n, v):
    return v / 100.0 if n in PCT else int(v)


class Session:
    def __init__(self):
        import smt.surrogate_models as S
        self.make = lambda o: S.GENN(is_print=False, print_global=False, **{n: real(n, v) for n, v in o.items()})
        self.opt = dict(DEFAULT)
        self.sm = self.make(self.opt)
        self.cur = None
        self.fitted = None

    def arrays(self, q):
        m, nx, ny = SETS[q["set"]]
        X = zoo.doe(m, nx, 10 + q["set"])
        Y, dY = zoo.f_smooth(X, ny)
        if q["out"] == 2:
            Y = Y + 0.5 * np.sin(3 * X[:, :1]); dY[0] = dY[0] + 1.5 * np.cos(3 * X[:, :1])
        if q["der"] == 2:
            dY = [d * 0.5 + 0.2 for d in dY]
        return X, Y, dY

    def load(self, sm, q):
        X, Y, dY = self.arrays(q)
        ux, uy = UX[q["ux"]], UY[q["uy"]]
        self.keep = [X * ux, Y * uy] + [d * (uy / ux) for d in dY]
        A = [a.copy() for a in self.keep]
        sm.set_training_values(A[0], A[1])
        if q["der"]:
            for k in range(X.shape[1]):
                sm.set_training_derivatives(A[0], A[2 + k], k)

    def probes(self, q):
        nx = SETS[q["set"]][1]
        return zoo.points(5, nx, 3)

    def scales(self, q):
        X, Y, dY = self.arrays(dict(q, out=1, der=1))
        return UX[q["ux"]], UY[q["uy"]], np.ptp(Y), [np.ptp(Y) / np.ptp(X[:, k]) for k in range(X.shape[1])]

    def snap(self, sm, q):
        tp = sm.training_points[None]
        return [np.array(tp[0][0]), np.array(tp[0][1])] + ([np.array(tp[k + 1][1]) for k in range(SETS[q["set"]][1])] if q["der"] else []) \
            + [{k: v for k, v in sm.options._dict.items()} if hasattr(sm.options, "_dict") else {n: sm.options[n] for n in DEFAULT}]

    def ask(self, sm, q, Q):
        ux, uy, sy, sd = self.scales(q)
        P = Q * ux
        v = np.asarray(sm.predict_values(P.copy())) / uy / sy
        d = [np.asarray(sm.predict_derivatives(P.copy(), k)) * (ux / uy) / sd[k] for k in range(Q.shape[1])]
        return [fxs(r) for r in v], [[fxs(r) for r in z] for z in d]

    def train(self, sm, q, who):
        before = self.snap(sm, q)
        res, _ = attempt(sm.train)
        e = dict(op=who, who=who, res=res)
        if res != "ok":
            return e
        Q = self.probes(q)
        e["n"] = len(Q)
        with Quiet():
            e["vals"], e["ders"] = self.ask(sm, q, Q)
        e["kept"] = same(before, self.snap(sm, q)) and all(np.array_equal(a, b) for a, b in zip(before, self.keep[:2 + (SETS[q["set"]][1] if q["der"] else 0)]))
        e["cost"] = dict(ok=False); e["hist"] = dict(ok=False)
        H = getattr(getattr(sm, "model", None), "training_history", None)
        if H:
            e["hist"] = dict(ok=True, epochs=len(H), batches=[len(b) for b in H.values()], iters=max(len(h) - 1 for b in H.values() for h in b.values()))
            m, nx, ny = SETS[q["set"]]
            if self.opt["mini_batch_size"] >= m:
                X, Y, D = self.keep[0], self.keep[1], self.keep[2:]
                gx, gy = X.std(0), Y.std(0)
                sy = np.sum(((sm.predict_values(X) - Y) / gy) ** 2)
                sd = sum(np.sum(((sm.predict_derivatives(X, k) - D[k]) * gx[k] / gy) ** 2) for k in range(nx)) if q["der"] else 0.0
                sw = sum(np.sum(np.asarray(v) ** 2) for k, v in sm.model.parameters.items() if k[0] == "W")
                c = float(np.squeeze(list(list(H.values())[-1].values())[-1][-1]))
                top = max(1.0, sy, sd, sw) / 15.0
                e["cost"] = dict(ok=True, twom=fx(2 * m * c / top), sy=fx(sy / top), sw=fx(sw / top), sd=fx(sd / top))
        return e


def play(walk):
    s = Session()
    ev = []
    for q in walk:
        if q["op"] == "data":
            q = dict(q)
            if s.cur is not None and s.cur["der"] and not q["der"]:
                q["der"] = 1       # derivatives once given are not taken back
            s.cur = q
            m, nx, ny = SETS[q["set"]]
            prev = getattr(s, "nx", nx)
            if prev > nx and s.had:
                s.sm = s.make(s.opt); s.fitted = None      # stale derivatives of other variables: a new object
                ev.append(dict(op="data", set=0, out=0, der=0, m=0, nx=0, ny=0))
            s.nx, s.had = nx, bool(q["der"])
            s.load(s.sm, q)
            ev.append(dict(op="data", set=q["set"], out=q["out"], der=q["der"], m=m, nx=nx, ny=ny))
        elif q["op"] == "opt":
            s.opt[q["name"]] = q["val"]
            s.sm.options[q["name"]] = real(q["name"], q["val"])
            ev.append(dict(op="opt", name=q["name"], val=q["val"]))
        elif q["op"] == "train":
            np.random.seed(len(ev))
            ev.append(s.train(s.sm, s.cur, "train"))
            s.fitted = dict(s.cur) if ev[-1]["res"] == "ok" else None
        elif q["op"] == "fresh":
            np.random.seed(1000 + len(ev))
            sm = s.make(s.opt)
            s.load(sm, s.cur)
            ev.append(s.train(sm, s.cur, "fresh"))
        elif s.fitted is not None and SETS[s.fitted["set"]][1:] == SETS[s.cur["set"]][1:]:     # a prediction needs points of the current dimension
            f = s.fitted
            Q = s.probes(f)
            rows = list(range(len(Q)))
            if q["which"] == "row":
                rows = [(q["n"] * 2) % 5]
            if q["which"] == "outside":
                Q = Q + 50.0
            before = s.snap(s.sm, s.cur)
            P = Q[rows]
            res, out = attempt(lambda: s.ask(s.sm, f, P))
            ev.append(dict(op="predict", which=q["which"], res=res, rows=[r + 1 for r in rows], vals=out[0] if res == "ok" else [], ders=out[1] if res == "ok" else [],
                           kept=same(before, s.snap(s.sm, s.cur))))
    return ev


def run(ctx):
    ctx.model_check("Genn", {"OptNames": tlaset(["gamma", "mini_batch_size", "lambd"]), "OptVals": tlaset([0, 5]), "DataSets": tlaset([1, 2]), "MaxOps": ctx.n(4, 5)},
                    ["NoDerivativesUnasked"], ["OnlyTrainLearns", "PureTraining"])
    ws = ctx.generate("GennGen", {"Depth": 16}, num=ctx.n(160, 1500), depth=20)
    jobs = [("walk-%d" % i, dict(opt=DEFAULT), (lambda w=w: play(w)), dict(key="walk", limit=90)) for i, w in enumerate(ws)]
    ctx.validate("GennTrace", parallel(jobs))
