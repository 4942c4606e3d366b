"""Concrete counterparts of spec/SurrogateSpace.tla configurations, and data sets."""
import numpy as np


def name_of(c):
    return "/".join(str(c[k]) for k in ("kind", "corr", "poly", "nc", "v") if c[k] not in ("-", 0))


def limits(nx):
    lo = np.array([0.0, -1.0, 2.0, -3.0])[:nx]
    hi = np.array([2.0, 3.0, 3.0, -1.0])[:nx]
    return np.c_[lo, hi]


def build(c, nx=2, xl=None, **over):
    import smt.surrogate_models as S
    import smt.applications as A
    k = c["kind"]
    if xl is None:
        xl = limits(nx)
    kw = dict(print_global=False)
    v = c["v"]
    if k == "IDW":
        kw["p"] = float(v[1:])
    elif k == "RBF":
        kw["poly_degree"] = int(c["poly"])
        kw["d0"] = float(v[1:])
    elif k in ("RMTB", "RMTC"):
        kw["xlimits"] = np.array(xl, dtype=float)
        kw["min_energy"] = v != "noenergy"
        kw["nonlinear_maxiter"] = 5
        if k == "RMTB":
            kw["num_ctrl_pts"] = 7
            kw["order"] = 3 if v == "order3" else 4
        else:
            kw["num_elements"] = 2 if v == "elem2" else 3
        if v == "lu":
            kw["solver"] = "lu"; kw["derivative_solver"] = "lu"
        if v == "cubic":
            kw["line_search"] = "cubic"
        if v == "bracketed":
            kw["line_search"] = "bracketed"
    elif k in ("KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK"):
        kw["corr"] = c["corr"]; kw["poly"] = c["poly"]
        kw["theta0"] = [0.5]
        kw["theta_bounds"] = [1e-3, 50.0]
        if c["nc"]:
            kw["n_comp"] = c["nc"]
            kw["theta0"] = [0.5] * c["nc"]
        if k == "KRG" and v == "tnc":
            kw["hyper_opt"] = "TNC"
        if k == "GEKPLS":
            kw["extra_points"] = int(v[5:])
            kw["delta_x"] = 0.02
            kw["xlimits"] = np.array(xl, dtype=float)
        if k == "MFK" and v == "rholin":
            kw["rho_regr"] = "linear"
    elif k == "MGP":
        kw["n_comp"] = c["nc"]; kw["poly"] = c["poly"]
    elif k == "GENN":
        kw.update(num_epochs=2, num_iterations=15, wide=6, deep=2, mini_batch_size=64 if v == "genn" else 5, is_print=False, seed=3)
        kw.pop("print_global")
        kw["print_global"] = False
    kw.update(over)
    cls = getattr(S, k, None) or getattr(A, k)
    return cls(**kw)


# ---------------------------------------------------------------- data
def f_smooth(X, ny=1, scale=1.0):
    """A smooth, oscillating function with derivatives: returns Y (n,ny), dY list of (n,ny)."""
    n, nx = X.shape
    L = limits(4)[:nx]
    U = (X - L[:, 0]) / (L[:, 1] - L[:, 0])
    D = 1.0 / (L[:, 1] - L[:, 0])
    Y = np.zeros((n, ny)); dY = [np.zeros((n, ny)) for _ in range(nx)]
    for j in range(ny):
        a = np.array([5.0, 3.5, 4.2, 2.7])[:nx] + 0.6 * j
        b = np.array([1.0, 0.7, -0.5, 0.3])[:nx] * (1 + 0.5 * j)
        # sum of sines + a product term
        Y[:, j] = np.sum(b * np.sin(a * U + j), axis=1)
        for k in range(nx):
            dY[k][:, j] = b[k] * a[k] * np.cos(a[k] * U[:, k] + j) * D[k]
        if nx > 1:
            Y[:, j] += 0.8 * U[:, 0] * U[:, 1] ** 2
            dY[0][:, j] += 0.8 * U[:, 1] ** 2 * D[0]
            dY[1][:, j] += 1.6 * U[:, 0] * U[:, 1] * D[1]
    return Y * scale, [d * scale for d in dY]


def doe(n, nx, seed, xl=None):
    """A jittered Latin design (our own, independent of the code under test)."""
    r = np.random.RandomState(seed)
    if xl is None:
        xl = limits(nx)
    best, bd = None, -1
    for _ in range(30):
        U = np.array([(r.permutation(n) + 0.2 + 0.6 * r.rand(n)) / n for _ in range(nx)]).T
        d = np.min([np.sum((U[i] - U[j]) ** 2) for i in range(n) for j in range(i)] or [1])
        if d > bd:
            best, bd = U, d
    return xl[:, 0] + best * (xl[:, 1] - xl[:, 0])


def points(n, nx, seed, xl=None, margin=0.0):
    r = np.random.RandomState(seed)
    if xl is None:
        xl = limits(nx)
    U = r.rand(n, nx) * (1 + 2 * margin) - margin
    return xl[:, 0] + U * (xl[:, 1] - xl[:, 0])


def nested(n, nx, seed, levels):
    """designs from low to high fidelity, nested"""
    X = doe(n * 2 ** (levels - 1), nx, seed)
    out = [X]
    for l in range(1, levels):
        out.append(out[-1][::2].copy())
    return out


def mf_levels(c):
    return {"lev1": 1, "lev2": 2, "lev3": 3, "rholin": 2}.get(c["v"], 2)


def low_fi(Y, X, l):
    """lower fidelity version number l >= 1 of Y"""
    L = limits(4)[:X.shape[1]]
    U = (X - L[:, 0]) / (L[:, 1] - L[:, 0])
    return (1.0 - 0.2 * l) * Y + 0.3 * l * np.sum(U, axis=1, keepdims=True) + 0.1 * l


class Data:
    """a training set for one configuration: X, Y, dY (+ lower-fidelity levels)"""
    def __init__(self, c, n, nx, ny, seed, scale=1.0, xl=None):
        self.c, self.nx, self.ny = c, nx, ny
        if c["kind"] in ("MFK", "MFKPLS", "MFKPLSK"):
            Xs = nested(n, nx, seed, mf_levels(c))
            self.levels = []
            for i, X in enumerate(Xs):
                Y, _ = f_smooth(X, ny, scale)
                l = len(Xs) - 1 - i
                self.levels.append((X, low_fi(Y, X, l) if l else Y))
            self.X, self.Y = self.levels[-1]
            self.dY = f_smooth(self.X, ny, scale)[1]
        else:
            self.levels = None
            self.X = doe(n, nx, seed)
            self.Y, self.dY = f_smooth(self.X, ny, scale)

    def load(self, sm, cap, derivs=None):
        if self.levels:
            for i, (X, Y) in enumerate(self.levels[:-1]):
                sm.set_training_values(X, Y, name=i)
        sm.set_training_values(self.X, self.Y)
        if derivs is None:
            derivs = cap["need"]
        if derivs:
            for k in range(self.nx):
                sm.set_training_derivatives(self.X, self.dY[k], k)


def npoints(c, nx):
    if c["kind"] in ("MFK", "MFKPLS", "MFKPLSK"):
        return 6 + 2 * nx
    if c["poly"] == "quadratic" or c["kind"] == "QP":
        return (nx + 1) * (nx + 2) // 2 + 4 + 2 * nx
    return 5 + 4 * nx
