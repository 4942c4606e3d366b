"""C11: mixed-integer encodings and casting (spec/MixInt.tla)."""
from harness.core import *
from harness.scen import parallel


def build(b):
    """concrete types, limits and unfolded points of a generated behaviour; also the spec's view"""
    from smt.applications.mixed_integer import FLOAT, INT, ENUM
    xt, xl, lim, types = [], [], [], []
    cols = []
    for i, (t, (lo, hi)) in enumerate(zip(b["types"], b["lim"])):
        if t["t"] == "F":
            xt.append(FLOAT); xl.append([lo / 2.0, hi / 2.0]); lim.append([fx(lo / 2.0), fx(hi / 2.0)]); cols.append((lo / 2.0, hi / 2.0))
            types.append(dict(t="F", k=1))
        elif t["t"] == "I":
            xt.append(INT); xl.append([lo, hi]); lim.append([fx(lo), fx(hi)]); cols.append((lo, hi))
            types.append(dict(t="I", k=1))
        else:
            xt.append((ENUM, t["k"])); xl.append(["%s%d_%d" % ("zaqb"[(i + j * 3 + t["k"]) % 4], i + 1, j) for j in range(t["k"])]); lim.append([0, fx(t["k"] - 1)])
            cols += [(0.0, 1.0)] * t["k"]
            types.append(dict(t="E", k=t["k"]))
    U = np.array([[lo + (hi - lo) * v / 20.0 for (lo, hi), v in zip(cols, p)] for p in b["pts"]], dtype=float)
    # categories: coarser weights so that ties happen
    col = 0
    for t in types:
        if t["t"] == "E":
            U[:, col:col + t["k"]] = np.round(U[:, col:col + t["k"]] * 3) / 4.0
        elif t["t"] == "I":
            U[:, col] = np.round(U[:, col] * 4) / 4.0
        col += t["k"]
    return xt, xl, dict(types=types, lim=lim, labels=[l if t["t"] == "E" else [] for t, l in zip(types, xl)]), U


def snap(*a):
    return [np.array(x, copy=True) if isinstance(x, np.ndarray) else json.dumps(x) for x in a]


def unchanged(s, *a):
    return all(same(k, np.asarray(x)) if isinstance(k, np.ndarray) else k == json.dumps(x) for k, x in zip(s, a))


def fxu(a):
    return fxm(np.asarray(a, dtype=float))


def play(b, k):
    import smt.applications.mixed_integer as mi
    xt, xl, cfg, U = build(b)
    ctx = mi.MixedIntegerContext(xt, xl, work_in_folded_space=bool(k % 2))
    ev = []
    s = snap(xl)
    lims = mi.unfold_xlimits_with_continuous_limits(xt, xl)
    ev.append(dict(op="dim", dim=int(mi.compute_unfolded_dimension(xt)), lims=fxm(lims), same=unchanged(s, xl)))
    ev.append(dict(op="context", what="limits", equal=same(np.asarray(ctx.get_unfolded_xlimits(), dtype=float), np.asarray(lims, dtype=float)) and int(ctx.get_unfolded_dimension()) == len(lims)))
    for rows in (U, U[:1], U[::-1][:3]):
        rows = np.asfortranarray(rows) if k % 3 == 0 else rows.copy()
        s = snap(rows, xl)
        y = mi.cast_to_discrete_values(xt, rows)
        ok = unchanged(s, rows, xl)
        ev.append(dict(op="cast", u=fxu(rows), y=fxu(y), again=fxu(mi.cast_to_discrete_values(xt, y)), same=ok))
        ev.append(dict(op="context", what="cast", equal=same(ctx.cast_to_discrete_values(rows), y)))
        s = snap(y)
        f = mi.fold_with_enum_index(xt, y)
        ok = unchanged(s, y)
        s = snap(f)
        back = mi.unfold_with_enum_mask(xt, f)
        ok2 = unchanged(s, f)
        ev.append(dict(op="fold", u=fxu(y), x=fxu(f), back=fxu(back), same=ok))
        ev.append(dict(op="unfold", x=fxu(f), u=fxu(back), back=fxu(mi.fold_with_enum_index(xt, back)), same=ok2))
        ev.append(dict(op="context", what="fold", equal=same(ctx.fold_with_enum_index(y), f) and same(ctx.unfold_with_enum_mask(f), back)))
        # folding continuous weights
        fw = mi.fold_with_enum_index(xt, rows)
        ev.append(dict(op="fold", u=fxu(rows), x=fxu(fw), back=fxu(rows), same=True))
        for r in f[:2]:
            m = mi.cast_to_mixed_integer(xt, xl, r)
            got = [v if t["t"] == "E" else str(fx(v)) if t["t"] == "F" else (str(int(v) * ONE) if isinstance(v, (int, np.integer)) else "not an integer")
                   for t, v in zip(cfg["types"], m)]
            ev.append(dict(op="mixed", x=fxs(r), got=got))
            ev.append(dict(op="context", what="mixed", equal=ctx.cast_to_mixed_integer(r) == m))
        for i, t in enumerate(cfg["types"]):
            if t["t"] == "E":
                idx = [int(v) for v in f[:, i]]
                got = mi.cast_to_enum_value(xl, i, idx)
                ev.append(dict(op="label", idx=idx, labels=xl[i], got=list(got)))
                ev.append(dict(op="context", what="labels", equal=ctx.cast_to_enum_value(i, idx) == got))
    # lists as well as arrays
    ev.append(dict(op="cast", u=fxu(U), y=fxu(mi.cast_to_discrete_values(xt, U)), again=fxu(mi.cast_to_discrete_values(xt, U)), same=True))
    # inconsistent specifications are refused
    bad = [(xt + [mi.FLOAT], xl), (xt, xl[:-1]), (xt[:-1] + ["float"], xl), (xt[:-1] + [("enum", 2)], xl)]
    if cfg["types"][-1]["t"] == "E":
        bad.append((xt, xl[:-1] + [xl[-1] + ["extra"]]))
    else:
        bad.append((xt, xl[:-1] + [[0.0, 1.0, 2.0]]))
    for tt, ll in bad:
        ev.append(dict(op="badspec", res=attempt(mi.check_xspec_consistency, tt, ll)[0]))
        ev.append(dict(op="badspec", res=attempt(mi.MixedIntegerContext, tt, ll)[0]))
    return ev


def run(ctx):
    ctx.model_check("MixInt", {"NV": 2, "MaxLev": 2, "Vals": tlaset([0, 1, 2])}, ["CastAdmissible", "Idempotent", "RoundTrip", "FoldAdmissible", "CastExists"])
    if ctx.thorough:
        ctx.model_check("MixInt", {"NV": 1, "MaxLev": 4, "Vals": tlaset([0, 1, 2, 3])}, ["CastAdmissible", "Idempotent", "RoundTrip", "FoldAdmissible", "CastExists"])
    bs = ctx.generate("MixIntGen", {"MaxVars": 4, "MaxLev": 4, "NPts": ctx.n(6, 12)}, num=ctx.n(500, 4000), depth=30)
    jobs = []
    for i, b in enumerate(bs):
        if b["types"]:
            key = "spec-" + "".join(t["t"] + (str(t["k"]) if t["t"] == "E" else "") for t in b["types"])
            jobs.append(("%s-%d" % (key, i), build(b)[2], (lambda b=b, i=i: play(b, i)), dict(key=key)))
    ctx.validate("MixIntTrace", parallel(jobs))
