"""C27: network gradients, mini-batches, normalisation and optimisers (spec/Nnet.tla)."""
from harness.core import *
from harness.scen import parallel
from collections import OrderedDict


# ------------------------------------------------------------------ optimisers
def problem(q):
    r = np.random.RandomState(q["seed"])
    c = r.uniform(0.5, 3, 3)
    a = r.uniform(-1, 1, 3)
    x0 = r.uniform(-1.5, 1.5, 3)

    def f(x):
        if q["fun"] == "quad":
            return 0.5 * np.sum(c * (x - a) ** 2)
        if q["fun"] == "rosen":
            return (1 - x[0]) ** 2 + 20 * (x[1] - x[0] ** 2) ** 2 + (x[2] - a[2]) ** 2
        if q["fun"] == "quartic":
            return np.sum(c * (x - a) ** 4) + 0.3 * np.sum(x ** 2)
        return np.sum(np.log1p(c * (x - a) ** 2)) + 0.1 * (x[0] - x[1] + x[2]) ** 2

    def g(x):
        if q["fun"] == "quad":
            return c * (x - a)
        if q["fun"] == "rosen":
            return np.array([-2 * (1 - x[0]) - 80 * x[0] * (x[1] - x[0] ** 2), 40 * (x[1] - x[0] ** 2), 2 * (x[2] - a[2])])
        if q["fun"] == "quartic":
            return 4 * c * (x - a) ** 3 + 0.6 * x
        d = 0.2 * (x[0] - x[1] + x[2])
        return 2 * c * (x - a) / (1 + c * (x - a) ** 2) + d * np.array([1, -1, 1])
    return f, g, x0


def pack(x):
    return OrderedDict(W1=np.array([[x[0], x[1]]]), b1=np.array([[x[2]]]))


def flat(d):
    return np.concatenate([np.asarray(d["W1"]).ravel(), np.asarray(d["b1"]).ravel()])


def opt(q):
    from smt.utils.neural_net import optimizer as O
    f, g, x0 = problem(q)
    guess = pack(x0)
    calls = dict(cost_function=lambda p: np.array([[f(flat(p))]]), learning_rate=q["lr"] / 100.0)
    if q["grad"] == "given":
        def gr(p):
            v = g(flat(p))
            return dict(W1=v[None, :2], b1=v[None, 2:])
        calls["grad_function"] = gr
    if q["alg"] == "Adam":
        calls.update(beta1=q["b1"] / 100.0, beta2=q["b2"] / 100.0)
    o = getattr(O, q["alg"]).initialize(initial_guess=guess, **calls)
    ev, done = [], 0
    b1, b2, lr = q["b1"] / 100.0, q["b2"] / 100.0, q["lr"] / 100.0
    before = None
    for iters in [q["iters"]] + ([q["again"]] if q["again"] else []):
        with Quiet():
            out = o.optimize(max_iter=iters, is_print=False)
        H = [flat(d) for d in o.design_history][done:]
        C = [float(np.squeeze(c)) for c in o.cost_history][done:]
        done = len(o.design_history)
        ev.append(dict(op="begin", dim=3, startkept=bool(np.array_equal(H[0], x0 if before is None else before))))
        G = [g(x) for x in H]
        big = max(1e-12, max(np.max(np.abs(v)) for v in G)) / 0.4
        v, s = np.zeros(3), np.zeros(3)
        for i in range(1, len(H)):
            gi = G[i - 1]
            v = b1 * v + (1 - b1) * gi / big
            s = b2 * s + (1 - b2) * (gi / big) ** 2
            vh, sh = v / (1 - b1 ** i), s / (1 - b2 ** i)
            root = np.sqrt(sh)
            quot = np.where(sh >= 1e-3, vh / np.maximum(root, 1e-9), 0)
            dx = H[i] - H[i - 1]
            c0, c1 = f(H[i - 1]), f(H[i])
            e = dict(op="step", dec=int(np.sign(c1 - c0)), moved=bool(np.any(dx != 0)))
            if q["alg"] == "Adam":
                e.update(g=fxs(gi / big), vh=fxs(vh), sh=fxs(sh), root=fxs(root), quot=fxs(quot))
                J = np.array([k >= 2000 for k in e["sh"]])
                unit = 1.0
            else:
                unit = max(1e-12, np.max(np.abs(gi))) / 0.4
                e.update(g=fxs(gi / unit), vh=[0] * 3, sh=[0] * 3, root=[0] * 3, quot=[0] * 3)
                J = np.array([True] * 3)
            m = np.max(np.abs(dx[J])) if J.any() else 0.0
            e.update(tiny=bool(m < 1e-8), unit=fxs(-dx / m) if m > 0 else [0] * 3, len=fx(m / lr / unit),
                     flat=bool(np.sum(gi ** 2) < 1e-4 * max(1.0, abs(c0))))
            # the step taken over the whole step, as mantissa and power of two
            whole = (np.max(np.abs(quot[J])) if q["alg"] == "Adam" else np.max(np.abs(gi))) if J.any() else 0.0
            clear = bool(q["grad"] == "given" and e["moved"] and not e["tiny"] and whole > 1e-3 and (q["alg"] == "GD" or np.min(root[J]) * big > 1e-3))
            man, ex = np.frexp(m / lr / whole) if clear else (0.5, 1)
            e.update(clear=clear, man=fx(man), ex=int(ex))
            ev.append(e)
        ev.append(dict(op="end", kept=same(np.concatenate([guess["W1"].ravel(), guess["b1"].ravel()]), x0),
                       last=bool(np.array_equal(flat(out), H[-1])), costs=bool(np.allclose(C, [f(x) for x in H], rtol=1e-12, atol=1e-14)),
                       count=len(H) - 1, iters=iters))
        before = H[-1]
    return ev


# ------------------------------------------------------------------ gradients of the training cost
def network(q):
    from smt.utils.neural_net.activation import Tanh, Linear, Sigmoid
    r = np.random.RandomState(q["seed"])
    dims = [q["nx"]] + [q["wide"]] * q["deep"] + [q["ny"]]
    par = {}
    for i in range(1, len(dims)):
        par["W%d" % i] = r.uniform(-1, 1, (dims[i], dims[i - 1]))
        par["b%d" % i] = r.uniform(-0.5, 0.5, (dims[i], 1))
    hid = dict(tanh=[Tanh()] * q["deep"], sigmoid=[Sigmoid()] * q["deep"], linear=[Linear()] * q["deep"],
               mixed=[(Tanh(), Sigmoid(), Linear())[i % 3] for i in range(q["deep"])])[q["act"]]
    return par, hid + [Linear()], r


def forward(par, acts, x):
    a = x
    for i in range(1, len(par) // 2 + 1):
        z = par["W%d" % i].dot(a) + par["b%d" % i]
        n = type(acts[i - 1]).__name__
        a = np.tanh(z) if n == "Tanh" else 1 / (1 + np.exp(-z)) if n == "Sigmoid" else z
    return a


H5 = (-2, -1, 1, 2)


def grad(q):
    from smt.utils.neural_net.model import Model
    par, acts, r = network(q)
    nx, ny, m = q["nx"], q["ny"], q["m"]
    X = np.asarray(r.uniform(-1.5, 1.5, (nx, m)), order=q["order"])
    Y = np.asarray(r.uniform(-1, 1, (ny, m)), order=q["order"])
    J = None if q["gamma"] < 0 else r.uniform(-1, 1, (ny, nx, m))
    lam, gam = q["lambd"] / 100.0, max(0, q["gamma"]) / 100.0
    net = Model.initialize(n_x=nx, n_y=ny, deep=q["deep"], wide=q["wide"])
    cost = lambda p: float(np.squeeze(net.cost(p, acts, X, Y, J, lam, gam)))
    keep = {k: v.copy() for k, v in par.items()}
    kd = [X.copy(), Y.copy(), None if J is None else J.copy()]
    ev = []
    # the documented cost, from its parts
    N = forward(par, acts, X)
    h = 1e-3
    jac = np.zeros((ny, nx, m))
    for j in range(nx):
        E = np.zeros((nx, 1)); E[j] = h
        q5 = [forward(par, acts, X + k * E) for k in H5]
        jac[:, j, :] = (q5[0] - 8 * q5[1] + 8 * q5[2] - q5[3]) / (12 * h)
    sy = np.sum((N - Y) ** 2)
    sw = sum(np.sum(v ** 2) for k, v in par.items() if k[0] == "W")
    sd = np.sum((jac - J) ** 2) if J is not None else 0.0
    top = max(1.0, sy, sw, sd) / 15.0
    if J is None or True:
        c = cost(par)
        ev.append(dict(op="cost", twom=fx(2 * m * c / top), sy=fx(sy / top), sw=fx(sw / top), sd=fx(sd / top)))
    G = net.grad(par, acts, X, Y, J, lam, gam)
    ev.append(dict(op="grad", shape=sorted(G) == sorted(par) and all(np.shape(G[k]) == par[k].shape for k in par),
                   kept=all(same(par[k], keep[k]) for k in par) and same(X, kd[0]) and same(Y, kd[1]) and (J is None or same(J, kd[2]))))
    S = max(1.0, max(np.max(np.abs(np.asarray(v))) for v in G.values()))
    c0 = cost(par)
    for k in par:
        for idx in np.ndindex(*par[k].shape):
            qs = []
            for d in H5:
                p2 = {a: b.copy() for a, b in par.items()}
                p2[k][idx] += d * h
                qs.append((cost(p2) - c0) / h)
            ev.append(dict(op="entry", what=k[0] + ("-gamma" if gam > 0 else "") + ("-lambda" if lam > 0 else ""), d=fx(np.asarray(G[k])[idx], S), q=[fx(v, S) for v in qs]))
    # derivatives predicted by the network itself
    from smt.utils.neural_net.fwd_prop import L_grads_forward, L_model_forward
    D = np.asarray(L_grads_forward(X, par, acts)[0]).reshape(ny, nx, m)
    S = max(1.0, np.max(np.abs(D)))
    f0 = np.asarray(L_model_forward(X, par, acts)[0]).reshape(ny, m)
    for j in range(nx):
        E = np.zeros((nx, 1)); E[j] = h
        F = [(np.asarray(L_model_forward(X + d * E, par, acts)[0]).reshape(ny, m) - f0) / h for d in H5]
        for i in range(ny):
            k = int(r.randint(m))
            ev.append(dict(op="net", d=fx(D[i, j, k], S), q=[fx(v[i, k], S) for v in F]))
    return ev


# ------------------------------------------------------------------ mini-batches
def batch(q):
    from smt.utils.neural_net.data import random_mini_batches
    m, nx, ny = q["m"], q["nx"], q["ny"]
    ids = np.arange(1, m + 1).astype(float)
    X = ids[None, :] + 100.0 * np.arange(nx)[:, None]
    Y = ids[None, :] + 1000.0 * np.arange(1, ny + 1)[:, None]
    J = ids[None, None, :] + 5000.0 + 100.0 * np.arange(nx)[None, :, None] + 1000.0 * np.arange(ny)[:, None, None] if q["jac"] else None
    k = [X.copy(), Y.copy(), None if J is None else J.copy()]
    seed = q["seed"] if q["seeded"] else None
    B = random_mini_batches(X, Y, J, q["size"], seed)
    C = random_mini_batches(X, Y, J, q["size"], seed)
    xs, ys, js, exact = [], [], [], True
    for bx, by, bj in B:
        bx, by = np.asarray(bx), np.asarray(by)
        xs.append([int(round(v)) for v in bx[0]])
        ys.append([int(round(v - 1000)) for v in by[0]])
        n = bx.shape[1]
        exact = exact and bx.shape == (nx, n) and by.shape == (ny, n) and np.array_equal(bx - bx[:1], np.repeat(100.0 * np.arange(nx)[:, None], n, 1)) \
            and np.array_equal(by - by[:1], np.repeat(1000.0 * np.arange(ny)[:, None], n, 1))
        if J is None:
            js.append([] if bj is None else [-1])
        else:
            bj = np.asarray(bj)
            js.append([int(round(v - 5000)) for v in bj[0, 0]])
            exact = exact and bj.shape == (ny, nx, n) and np.array_equal(bj - bj[:1, :1], np.broadcast_to(100.0 * np.arange(nx)[None, :, None] + 1000.0 * np.arange(ny)[:, None, None], (ny, nx, n)))
    rep = len(B) == len(C) and all(np.array_equal(b[0], c[0]) and np.array_equal(b[1], c[1]) for b, c in zip(B, C))
    kept = same(X, k[0]) and same(Y, k[1]) and (J is None or same(J, k[2]))
    return [dict(op="batches", x=xs, y=ys, j=js, exact=bool(exact), repeat=bool(rep), kept=kept)]


# ------------------------------------------------------------------ whole models
def model(q):
    from smt.utils.neural_net.model import Model
    from smt.utils.neural_net.data import normalize_data
    from smt.utils.neural_net.activation import Tanh
    r = np.random.RandomState(q["seed"])
    nx, ny, m = q["nx"], q["ny"], q["m"]
    sx, ox, sy, oy = dict(plain=(1, 0, 1, 0), big=(50, 10, 1e4, -2e3), small=(1e-3, 0, 1e-4, 0), offset=(1, 40, 2, 500), constx=(1, 3, 1, 0), consty=(1, 0, 1, 5))[q["data"]]
    X = ox + sx * r.uniform(-1, 1, (nx, m)) * np.array([1.0, 3.0, 0.2])[:nx, None]
    T = (X - ox) / sx
    W = r.uniform(-1, 1, (ny, nx))
    Y = oy + sy * (np.sin(W.dot(T)) + 0.3 * T.sum(0)) * np.array([1.0, 10.0, 0.5])[:ny, None]
    J = sy / sx * (np.cos(W.dot(T))[:, None, :] * W[:, :, None] + 0.3) * np.array([1.0, 10.0, 0.5])[:ny, None, None]
    if q["data"] == "constx":
        X[0] = 3.0
    if q["data"] == "consty":
        Y[0] = 5.0; J[0] = 0.0
    if not q["jac"]:
        J = None
    kx = [X.copy(), Y.copy(), None if J is None else J.copy()]
    kept = lambda: same(X, kx[0]) and same(Y, kx[1]) and (J is None or same(J, kx[2]))
    ev = []
    Xn, Yn, Jn, mx, gx, my, gy = normalize_data(X, Y, J)
    ev.append(dict(op="normal", rows=[fxs(v) for v in Xn] + [fxs(v) for v in Yn]))
    sX, sY = np.ptp(X, 1)[:, None] + 1e-9 + 1e-9 * np.abs(X).max(1)[:, None], np.ptp(Y, 1)[:, None] + 1e-9 + 1e-9 * np.abs(Y).max(1)[:, None]
    np.random.seed(q["seed"])
    net = Model.initialize(n_x=nx, n_y=ny, deep=q["deep"], wide=q["wide"])
    kw = dict(num_iterations=8, num_epochs=q["epochs"], alpha=0.05, lambd=0.05, gamma=q["gamma"] / 100.0 if q["jac"] else 0.0, seed=q["seed"], silent=True)
    if q["batch"]:
        kw["mini_batch_size"] = q["batch"]
    res, _ = attempt(lambda: net.train(X, Y, J, **kw))
    ev.append(dict(op="train", res=res, kept=kept()))
    if res != "ok":
        return ev
    A, B, C = net.training_data
    ev.append(dict(op="restore", what="x", got=fxm((A - ox) / sX), want=fxm((X - ox) / sX)))
    ev.append(dict(op="restore", what="y", got=fxm((B - oy) / sY), want=fxm((Y - oy) / sY)))
    if J is not None:
        sj = np.max(np.abs(J)) + 1e-12
        ev.append(dict(op="restore", what="j", got=fxm(np.asarray(C).reshape(ny * nx, m) / sj), want=fxm(J.reshape(ny * nx, m) / sj)))
    hist = net.training_history
    nb = 1 if not q["batch"] else -(-m // min(q["batch"], m))
    ev.append(dict(op="history", epochs=len(hist), batches=[len(v) for v in hist.values()], expect=nb,
                   descent=all(all(b <= a for a, b in zip(h[:-1], h[1:])) for v in hist.values() for h in v.values())))
    # predictions
    wx = np.where(np.ptp(X, 1) > 0, np.ptp(X, 1), 1.0)
    Q = X[:, :1] + wx[:, None] * r.uniform(-0.6, 0.6, (nx, 4))
    mu_x, sg_x, mu_y, sg_y = X.mean(1)[:, None], X.std(1)[:, None], Y.mean(1)[:, None], Y.std(1)[:, None]
    sg_x[sg_x == 0] = 1.0; sg_y[sg_y == 0] = 1.0
    P = {k: np.asarray(v) for k, v in net.parameters.items()}
    want = mu_y + sg_y * forward(P, list(net.activations), (Q - mu_x) / sg_x)
    got = net.evaluate(Q)
    ev.append(dict(op="evaluate", what=q["data"], got=fxm((got - oy) / sg_y), want=fxm((want - oy) / sg_y)))
    D = np.asarray(net.gradient(Q)).reshape(ny, nx, 4)
    for j in range(nx):
        h = 1e-3 * wx[j]
        E = np.zeros((nx, 1)); E[j] = h
        F = [(net.evaluate(Q + d * E) - got) / h for d in H5]
        for i in range(ny):
            S = 3 * sg_y[i, 0] / min(sg_x[j, 0], wx[j])
            for k in range(4):
                ev.append(dict(op="slope", d=fx(D[i, j, k], S), q=[fx(v[i, k], S) for v in F]))
    return ev


KINDS = dict(opt=opt, grad=grad, batch=batch, model=model)


def cfg_of(b):
    q = b["q"]
    c = dict(kind=b["kind"])
    if b["kind"] == "opt":
        c.update(alg=q["alg"], b1=q["b1"] * 10000, b2=q["b2"] * 10000)
    elif b["kind"] == "grad":
        c.update(lambd=q["lambd"] * 10000, gamma=max(0, q["gamma"]) * 10000)
    elif b["kind"] == "batch":
        c.update(m=q["m"], size=q["size"], jac=q["jac"], seeded=q["seeded"])
    else:
        c.update(epochs=q["epochs"], data=q["data"])
    return c


def run(ctx):
    ctx.model_check("Nnet", {"Grads": tlaset([0, 1, 3]), "Sizes": tlaset([1, 2, 3] if not ctx.thorough else [1, 2, 3, 4]), "MaxT": ctx.n(3, 4)},
                    ["Average", "FirstIsGradient", "Splits"], ["Descends"])
    bs = ctx.generate("NnetGen", {"Depth": 1}, num=ctx.n(700, 6000), depth=4)
    jobs = [("%s-%d" % (b["kind"], i), cfg_of(b), (lambda b=b: KINDS[b["kind"]](b["q"])), dict(key=b["kind"], limit=60)) for i, b in enumerate(bs)]
    ctx.validate("NnetTrace", parallel(jobs))
