"""Mixtures of experts built from generated options (C18, C19)."""
from harness.core import *
from scipy.stats import multivariate_normal


def fun(f, X):
    """piecewise functions: the pieces live in well-separated regions"""
    u = X[:, 0]
    g = np.floor(u / 2.0)
    s = np.sum(X[:, 1:], axis=1) if X.shape[1] > 1 else 0
    if f == 1:
        y = np.where(g == 0, 1 + 2 * u + s, np.where(g == 1, np.sin(3 * u) - s, u ** 2 / 4 + s * s))
    elif f == 2:
        y = np.cos(u) + 0.5 * s
    else:
        y = np.where(g % 2 == 0, 5 + u * s + u ** 2, -3 + np.abs(np.sin(4 * u)))
    return y.reshape(-1, 1)


def data(b, n=None):
    r = np.random.RandomState(b["seed"])
    k = max(1, b["nc"])
    n = n or 22 * k
    g = np.arange(n) % k
    r.shuffle(g)
    X = np.zeros((n, b["nx"]))
    X[:, 0] = 2.0 * g + 0.2 + (1.9 if b["seed"] % 3 == 0 else 0.9) * r.rand(n)      # groups two apart, or touching
    for j in range(1, b["nx"]):
        X[:, j] = r.rand(n) * 0.9 + 2.0 * g * (j == 1)
    return X, fun(b["f"], X)


def kinds():
    import smt.surrogate_models as S
    return {k: getattr(S, k) for k in ("KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW", "RMTB", "RMTC")}


def options(b, X, Y):
    o = dict(n_clusters=b["nc"], smooth_recombination=b["smooth"], heaviside_optimization=b["heavi"], variances_support=b["var"], derivatives_support=b["der"], allow=sorted(b["allow"]), deny=sorted(b["deny"]))
    if b["test"]:
        bb = dict(b); bb["seed"] += 1
        o["xtest"], o["ytest"] = data(bb, 12 * max(1, b["nc"]))
    if b["ct"]:
        o["ct"] = np.c_[Y, np.gradient(np.sort(Y[:, 0])).reshape(-1, 1)] if b["seed"] % 2 else Y ** 2 * 0.1 + X[:, :1]
    return o


def unusable(b):
    on = set(b["allow"]) - set(b["deny"]) - {"GEKPLS", "MGP"}
    return not on


def train(b):
    from smt.applications.moe import MOE, MOESurrogateModel
    X, Y = data(b)
    o = options(b, X, Y)
    keep = [X.copy(), Y.copy()] + [v.copy() for v in o.values() if isinstance(v, np.ndarray)]
    ref = [X, Y] + [v for v in o.values() if isinstance(v, np.ndarray)]
    if b["via"] == "options":
        m = MOE(xt=X, yt=Y, **o)
    elif b["via"] == "set":
        m = MOE(**o); m.set_training_values(X, Y)
    else:
        m = MOESurrogateModel(**o); m.options["print_global"] = False
        m.set_training_values(X, Y)
    np.random.seed(b["seed"] % 7)
    with Quiet():
        try:
            m.train()
        except Exception:
            # a mixture component with (almost) no point cannot get a trained expert: nothing to judge
            c = getattr(getattr(m, "moe", m), "cluster", None)
            C = o.get("ct", Y)
            keep = np.ones(len(X), bool)
            if "xtest" not in o:
                keep[::10] = False
            if b["nc"] > 1 and c is not None and min(np.bincount(c.predict(np.c_[X, C]), minlength=b["nc"]).min(), np.bincount(c.predict(np.c_[X, C][keep]), minlength=b["nc"]).min()) * 0.9 < (b["nx"] + 1) * (b["nx"] + 2) // 2 + 1:
                return None
            raise
    return m, X, Y, o, all(same(a, c) for a, c in zip(keep, ref))


def probabilities(moe, P, factor=None):
    """cluster probabilities from the Gaussian mixture fitted"""
    nx = P.shape[1]
    g = moe.cluster
    factor = moe.heaviside_factor if factor is None else factor
    if moe.n_clusters == 1:
        return np.ones((len(P), 1))
    L = np.array([np.log(g.weights_[k]) + np.atleast_1d(multivariate_normal(g.means_[k][:nx], factor * g.covariances_[k][:nx, :nx]).logpdf(P)) for k in range(moe.n_clusters)]).T
    L = np.exp(L - L.max(axis=1, keepdims=True))
    return L / L.sum(axis=1, keepdims=True)
