"""C19: selection and training of experts (spec/Moe.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import moe as M


def expert(kind, X):
    kw = {}
    if kind in ("RMTB", "RMTC"):
        kw["xlimits"] = np.c_[X.min(0), X.max(0)]
    return M.kinds()[kind](print_global=False, **kw)


def play(b):
    from smt.applications.moe import MOE, MOESurrogateModel
    ev = []
    # enabling
    for allow, deny in ((b["wallow"], b["wdeny"]), (b["allow"], b["deny"]), ([], b["wdeny"]), (b["wallow"], [])):
        m = MOE(allow=sorted(allow), deny=sorted(deny), variances_support=b["var"], derivatives_support=b["der"])
        res, got = attempt(lambda: list(m.enabled_experts))
        ev.append(dict(op="enabled", got=got if res == "ok" else [res], der=b["der"], var=b["var"], allow=sorted(allow), deny=sorted(deny)))
    X, Y = M.data(b)
    # rejections
    def tr(want, what, **kw):
        def go():
            o = dict(xt=X, yt=Y, n_clusters=1, allow=["LS"]); o.update(kw)
            o = {k: v for k, v in o.items() if v is not None}
            MOE(**o).train()
        ev.append(dict(op="reject", res=attempt(go)[0], want=want, what=what))
    tr("ValueError", "no-expert", allow=["LS"], deny=["LS"])
    tr("ValueError", "no-expert-with-variance", allow=["LS", "IDW"], variances_support=True)
    tr("ValueError", "sizes", yt=Y[:-1])
    tr("ValueError", "too-many-clusters", n_clusters=len(X) // 10 + 2)
    tr("ValueError", "no-data", xt=None, yt=None)
    tr("ok", "single-expert")
    if M.unusable(b):
        return ev
    built = M.train(b)
    if built is None:
        return ev
    m, X, Y, o, ok = built
    inner = getattr(m, "moe", m)
    ev.append(dict(op="equal", ok=ok, what="caller-arrays-changed"))
    if not b["var"]:
        ev.append(dict(op="reject", res=attempt(m.predict_variances, X[:2])[0], want="NotImplementedError" if b["via"] == "wrapper" else "RuntimeError", what="variances-without-support"))
    if b["via"] == "wrapper":
        ev.append(dict(op="equal", ok=bool(m.supports["variances"]) == b["var"], what="variance-flag"))
    # the same mixture by the other entry points
    sc = max(1e-3, float(np.ptp(Y)))
    Q = X[:6] + 0.05
    with Quiet():
        y0 = m.predict_values(Q)
    for via in ("set", "options", "wrapper", "wrapper-options"):
        if via == b["via"] or (b["seed"] % 3 and via == "set"):
            continue
        if via == "options":
            w = MOE(xt=X, yt=Y, **o)
        elif via == "set":
            w = MOE(**o); w.set_training_values(X[:, 0] if b["nx"] == 1 else X, Y[:, 0])
        elif via == "wrapper":
            w = MOESurrogateModel(**o); w.set_training_values(X, Y)
        else:
            w = MOESurrogateModel(xt=X, yt=Y, **o)
        np.random.seed(b["seed"] % 7)
        with Quiet():
            w.train(); y1 = w.predict_values(Q)
        ev.append(dict(op="equal", ok=shape(y1) == shape(y0) and bool(np.allclose(y0, y1, rtol=1e-6, atol=1e-6 * sc)), what="entry-point-" + via))
    # selection: validation errors of every enabled expert on the cluster, 10 % held out
    if hasattr(inner, "_experts"):
        on = sorted(k for k in (set(b["allow"]) or set(M.kinds())) - set(b["deny"]) if k in M.kinds() and (not b["var"] or k in ("KRG", "KPLS", "KPLSK")))
        C = o["ct"] if "ct" in o else Y
        mask = np.ones(len(X), bool)
        if "xtest" not in o:
            mask[::10] = False
        labels = inner.cluster.predict(np.c_[X[mask], C[mask]])
        full = inner.cluster.predict(np.c_[X, C])
        names = {cls: k for k, cls in M.kinds().items()}
        for c in range(inner.n_clusters):
            xs, ys = X[mask][labels == c], Y[mask][labels == c]
            hold = np.zeros(len(xs), bool); hold[::10] = True
            errs = {}
            for k in on:
                e = expert(k, X); e.set_training_values(xs[~hold], ys[~hold])
                with Quiet():
                    np.random.seed(0); e.train()
                    errs[k] = fx(np.linalg.norm(ys[hold] - e.predict_values(xs[hold])), sc)
            got = inner._experts[c]
            kind = names.get(type(got), "?")
            fresh = expert(kind, X); fresh.set_training_values(X[full == c], Y[full == c])
            with Quiet():
                np.random.seed(0); fresh.train()
                ev.append(dict(op="cluster", kind=kind, enabled=on, errs=errs, got=fxs(got.predict_values(Q), sc), fresh=fxs(fresh.predict_values(Q), sc)))
        # the factor of the covariances: no other one of the search gives a smaller error on the held-out points
        XT, YT = (np.asarray(o["xtest"]), np.asarray(o["ytest"])) if "xtest" in o else (X[~mask], Y[~mask])
        exp, usable = [], True
        for c in range(inner.n_clusters):
            xs, ys = X[mask][labels == c], Y[mask][labels == c]
            hold = np.zeros(len(xs), bool); hold[::10] = True
            kind = names.get(type(inner._experts[c]), "?")
            e = expert(kind, X); e.set_training_values(xs[~hold], ys[~hold])
            with Quiet():
                np.random.seed(0); e.train()
                exp.append(e.predict_values(XT))
        grid = np.linspace(0.1, 2.1, 21)
        errs = [float(np.linalg.norm(YT[:, 0] - np.sum(M.probabilities(inner, XT, f) * np.hstack(exp), axis=1)) / np.linalg.norm(YT)) for f in grid]
        on_grid = int(np.argmin(np.abs(grid - inner.heaviside_factor)))
        ev.append(dict(op="factor", wanted=bool(b["smooth"] and b["heavi"] and inner.n_clusters > 1), factor=fx(inner.heaviside_factor), i=on_grid + 1, grid=fxs(grid), errs=fxs(errs)))
        if inner.n_clusters == 1:
            with Quiet():
                ev.append(dict(op="equal", ok=bool(np.allclose(y0, fresh.predict_values(Q), atol=3e-4 * sc)), what="one-cluster-not-its-expert"))
    return ev


def run(ctx):
    ctx.model_check("Moe", {"Kinds": tlaset(["KRG", "LS", "KPLS"] if ctx.thorough else ["KRG", "LS"]), "NC": 2, "Errs": tlaset([1, 2])}, ["OnlyEnabled", "Smallest", "CanChoose", "Hull"])
    bs = ctx.generate("MoeGen", {"NFun": 3}, num=ctx.n(140, 800), depth=5)
    jobs = []
    for i, b in enumerate(bs):
        key = "c%d-%s" % (b["nc"], b["via"])
        jobs.append(("%s-x%d-%d" % (key, b["nx"], i), dict(k=i), (lambda b=b: play(b)), dict(key=key, limit=200)))
    ctx.validate("MoeTrace", parallel(jobs))
