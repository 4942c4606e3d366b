"""Benchmark problems: construction, reference values (written from the literature, not from the code), domain points."""
import numpy as np

FIXED = dict(branin="Branin", torsion="TorsionVibration", water="WaterFlow", waterlf="WaterFlowLFidelity", welded="WeldedBeam", wing="WingWeight")
PARS = {1: (50e3, 200e9), 2: (1.0, 1.0), 3: (12e3, 7e10)}
WIDTH = {1: 1.0, 2: 2, 3: 0.5}


def make(name, dim, par=1, cx=False):
    import smt.problems as B
    kw = dict(return_complex=True) if cx else {}
    base, fd = (name[:-3], True) if name.endswith("-fd") else (name, False)
    if base in FIXED:
        if fd:
            kw["use_FD"] = True
        return getattr(B, FIXED[base])(**kw)
    if base == "sphere":
        return B.Sphere(ndim=dim, **kw)
    if base == "rosen":
        return B.Rosenbrock(ndim=dim, **kw)
    if base[:2] == "lp":
        return B.LpNorm(ndim=dim, order=int(base[2:]), **kw)
    if base[:2] == "tp":
        return B.TensorProduct(ndim=dim, func=base[3:], width=WIDTH[par], **kw)
    if base == "beam":
        return B.CantileverBeam(ndim=dim, P=PARS[par][0], E=PARS[par][1], **kw)
    return B.RobotArm(ndim=dim, **kw)


def factor(f, a, v):
    return dict(cos=np.cos(a * np.pi * v), exp=np.exp(a * v), tanh=np.tanh(a * v), gaussian=np.exp(-2.0 * a * v ** 2))[f]


def reference(name, par, x):
    """value at one real point"""
    x = np.asarray(x, float)
    base = name[:-3] if name.endswith("-fd") else name
    if base == "sphere":
        return float(np.dot(x, x))
    if base == "rosen":
        return float(sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1)))
    if base[:2] == "lp":
        p = int(base[2:])
        return float(sum(abs(v) ** p for v in x) ** (1.0 / p))
    if base[:2] == "tp":
        return float(np.prod([factor(base[3:], float(WIDTH[par]), v) for v in x]))
    if base == "beam":
        P, E = PARS[par]
        n = len(x) // 3
        b, h, L = x[0::3], x[1::3], x[2::3]
        return P / (3 * E) * sum(12 / (b[i] * h[i] ** 3) * (sum(L[i:]) ** 3 - sum(L[i + 1:]) ** 3) for i in range(n))
    if base == "arm":
        L, th = x[0::2], np.cumsum(x[1::2])
        return float(abs(np.sum(L * np.exp(1j * th))))
    if base == "branin":
        a, b = x
        return (b - 5.1 / (4 * np.pi ** 2) * a * a + 5 / np.pi * a - 6) ** 2 + 10 * (1 - 1 / (8 * np.pi)) * np.cos(a) + 10
    if base in ("water", "waterlf"):
        rw, r, Tu, Hu, Tl, Hl, L, Kw = x
        g = np.log(r / rw)
        if base == "water":
            return 2 * np.pi * Tu * (Hu - Hl) / (g * (1 + 2 * L * Tu / (g * rw ** 2 * Kw) + Tu / Tl))
        return 5 * Tu * (Hu - Hl) / (g * (1.5 + 2 * L * Tu / (g * rw ** 2 * Kw) + Tu / Tl))
    if base == "welded":
        t, h, l = x
        r = np.sqrt(0.25 * (l ** 2 + (h + t) ** 2))
        t1 = 6000 / (np.sqrt(2) * h * l)
        t2 = 6000 * (14 + 0.5 * l) * r / (2 * (0.707 * h * l * (l ** 2 / 12 / l + 0.25 * (h + t) ** 2)))
        return np.sqrt(t1 ** 2 + t2 ** 2 + l * t1 * t2 / r)
    if base == "wing":
        Sw, Wfw, A, Lam, q, lam, tc, Nz, Wdg, Wp = x
        c = np.cos(Lam * np.pi / 180)
        return 0.036 * Sw ** 0.758 * Wfw ** 0.0035 * (A / c ** 2) * q ** 0.006 * lam ** 0.04 * (100 * tc / c) ** -0.3 * (Nz * Wdg) ** 0.49 + Sw * Wp
    d1, L1, G1, d2u, G3, dd, d3, L2, G2, e3, rho1, t1, D2, rho2, t2 = x
    # shaft stiffnesses and disk inertias in the order SMT documents its 15 variables
    K1 = np.pi * G1 * d1 / (32 * L1)
    K2 = np.pi * G2 * d3 / (32 * L2)
    K3 = np.pi * G3 * e3 / (32 * d2u)
    M1 = rho1 * np.pi * t1 * dd / (4 * 9.80665)
    M2 = rho2 * np.pi * t2 * D2 / (4 * 9.80665)
    J1, J2 = 0.5 * M1 * (dd / 2) ** 2, 0.5 * M2 * (D2 / 2) ** 2
    b = -((K1 + K2) / J1 + (K2 + K3) / J2)
    c = (K1 * K2 + K2 * K3 + K3 * K1) / (J1 * J2)
    return np.sqrt((-b - np.sqrt(b * b - 4 * c)) / 2) / (2 * np.pi)


def smooth(name, x, w):
    """away from the points where the function has no derivative"""
    base = name[:-3] if name.endswith("-fd") else name
    if base == "lp1":
        return np.all(np.abs(x) > 0.01)
    if base[:2] == "lp":
        return np.sqrt(np.sum(x * x)) > 0.15 * np.sqrt(len(x))
    if base == "arm":
        return reference(name, 1, x) > 0.12
    return True


def points(name, xl, where, n, seed):
    r = np.random.RandomState(seed)
    lo, hi = xl[:, 0], xl[:, 1]
    out = []
    for _ in range(400):
        x = lo + (hi - lo) * (0.002 + 0.996 * r.rand(len(lo)))
        if where == "edge":
            m = r.rand(len(lo)) < 0.5
            x = np.where(m, np.where(r.rand(len(lo)) < 0.5, lo + 0.002 * (hi - lo), hi - 0.002 * (hi - lo)), x)
        elif where == "zero" and name[:2] in ("lp", "tp", "sp", "ro"):
            x = np.where(r.rand(len(lo)) < 0.4, 0.0, x)
        elif where == "integer" and np.all(hi - lo >= 1):
            x = np.clip(np.round(x), np.ceil(lo), np.floor(hi))
        elif where == "equal":
            x = lo + (hi - lo) * (0.05 + 0.9 * r.rand())
        if smooth(name, x, hi - lo):
            out.append(x)
        if len(out) == n:
            break
    return np.array(out) if out else None
