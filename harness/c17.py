"""C17: EGO criteria and virtual points (spec/Ego.tla)."""
from harness.core import *
from harness.scen import parallel
from harness import ego
from harness.c16 import jobs, INV


def run(ctx):
    ctx.model_check("Ego", {"Points": tlaset([1, 2]), "NDoe": 1, "NIter": 2, "NPar": 2, "Values": tlaset([0, 1])}, INV, properties=["Ends"])
    bs = ctx.generate("EgoGen", {"MaxIter": 3, "MaxPar": 3, "NSpecs": len(ego.specs())}, num=ctx.n(150, 1200), depth=5)
    for b in bs:
        b["failat"] = 0
        b["par"] = max(2, b["par"])
    ctx.validate("EgoTrace", parallel(jobs(ctx, "C17", bs)))
