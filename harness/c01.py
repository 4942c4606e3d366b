"""C01: options dictionaries (spec/Options.tla)."""
from harness.core import *
from harness.scen import scenario
from smt.utils.options_dictionary import OptionsDictionary

NAMES = ["a", "b", "c"]
D1 = {"k": 1}
VAL = dict(s1="red", s2="blue", i7=7, f5=5.5, bt=True, none=None, d1=D1)
RULE = dict(any={}, vals=dict(values=["red", 7]), typs=dict(types=(int, float)), both=dict(values=("red",), types=(bool, dict)))


def vid(v):
    for k, w in VAL.items():
        if type(v) == type(w) and v == w:
            return k
    return "other"


def project(o):
    r = {}
    for n in NAMES:
        if n in o:
            try:
                r[n] = vid(o[n])
            except Exception:
                r[n] = "lost"
        else:
            r[n] = "absent"
        if (n in o) != bool(o.is_declared(n)):
            r[n] = "inconsistent"
    return r


def clone(o):
    return o.clone() if hasattr(o, "clone") else o._clone()


def replay(behaviour):
    objs = [OptionsDictionary(), OptionsDictionary()]
    ev = []
    for op in behaviour:
        e = dict(op)
        k = op.get("k", 1) - 1
        e["out"] = "absent"
        if op["op"] == "declare":
            res, _ = attempt(objs[k].declare, op["n"], VAL[op["v"]], **RULE[op["rule"]])
        elif op["op"] == "set":
            res, _ = attempt(objs[k].__setitem__, op["n"], VAL[op["v"]])
        elif op["op"] == "get":
            res, v = attempt(objs[k].__getitem__, op["n"])
            e["out"] = vid(v) if res == "ok" else "absent"
        elif op["op"] == "update":
            d = {}
            for kv in op["kvs"]:
                d[kv["n"]] = VAL[kv["v"]]
            keep = dict(d)
            res, _ = attempt(objs[k].update, d)
            if d != keep:
                e["out"] = "argument-changed"
        else:
            res, c = attempt(clone, objs[0])
            if res == "ok":
                objs[1] = c
        e["res"] = res
        e["p1"], e["p2"] = project(objs[0]), project(objs[1])
        e["unk"] = all("zz_unknown" not in o and not o.is_declared("zz_unknown") for o in objs) and D1 == {"k": 1}
        ev.append(e)
    return ev


def run(ctx):
    c = {"Names": '{"a", "b"}', "MaxUpd": 2} if ctx.thorough else {"Names": '{"a"}', "MaxUpd": 1}
    ctx.model_check("Options", c, ["StoredValid", "RejectedIsNoop", "Independent"], ["NamesPersist"], timeout=850)
    beh = ctx.generate("OptionsGen", {"Names": '{"a", "b", "c"}', "MaxUpd": 3, "Depth": 30}, num=ctx.n(300, 3000), depth=32, spec="GSpec")
    traces = [scenario("walk%d" % i, {"x": 0}, lambda b=b: replay(b)) for i, b in enumerate(beh)]
    ctx.validate("OptionsTrace", traces)
    from harness import optclasses
    optclasses.run(ctx)
