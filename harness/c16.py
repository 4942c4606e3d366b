"""C16: EGO bookkeeping (spec/Ego.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import ego

INV = ["TrueValues", "NoVirtualLeft", "VirtualIsTail", "Size"]


def jobs(ctx, part, bs):
    out = []
    for i, b in enumerate(bs):
        sp = ego.specs()[b["spec"] - 1]
        types = [s[0] for s in sp]
        r = None
        cfg = dict(part=part, types=types, lim=[s[3] for s in sp], ndoe=4 + len(sp), par=b["par"], iter=b["iter"], qei=b["qei"], given=False, xdoe=[])
        key = "%s%s-%s" % ("".join(t["t"] for t in types), "-fail" if b["failat"] else "", b["crit"])
        out.append(("%s-%s-p%d-%d" % (key, b["qei"], b["par"], i), cfg, (lambda b=b: ego.play(b, part)), dict(key=key, limit=150)))
    return out


def run(ctx):
    ctx.model_check("Ego", {"Points": tlaset([1, 2]), "NDoe": 1, "NIter": 2, "NPar": 2, "Values": tlaset([0, 1])}, INV, properties=["Ends"])
    if ctx.thorough:
        ctx.model_check("Ego", {"Points": tlaset([1, 2, 3]), "NDoe": 1, "NIter": 2, "NPar": 2, "Values": tlaset([0, 1])}, INV, properties=["Ends"])
    bs = ctx.generate("EgoGen", {"MaxIter": 3, "MaxPar": 3, "NSpecs": len(ego.specs())}, num=ctx.n(150, 1200), depth=5)
    ctx.validate("EgoTrace", parallel(jobs(ctx, "C16", bs)))
