"""Shared machinery: running TLC, recording traces, verdicts, evidence."""
import json, math, os, re, shutil, subprocess, sys, tempfile, time, hashlib
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NAN = 2000000000
SAT = 1000000000
ONE = 1000000


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ fixed point
def fx(v, scale=1.0):
    """round(v/scale*1e6), saturated; NaN/inf/missing -> NAN."""
    try:
        v = float(v) / float(scale)
    except Exception:
        return NAN
    if not math.isfinite(v):
        return NAN
    r = v * ONE
    if r > SAT:
        return SAT
    if r < -SAT:
        return -SAT
    return int(round(r))


def fxs(a, scale=1.0):
    a = np.asarray(a, dtype=float).ravel()
    s = np.broadcast_to(np.asarray(scale, dtype=float).ravel() if np.ndim(scale) else scale, a.shape)
    return [fx(x, k) for x, k in zip(a, s)]


def fxm(a, scale=1.0):
    """2-D array -> list of rows; `scale` scalar or one per column."""
    a = np.asarray(a, dtype=float)
    if a.ndim != 2:
        return []
    sc = np.asarray(scale, dtype=float)
    if sc.ndim == 0:
        sc = np.full(a.shape[1], float(sc))
    if sc.shape[0] < a.shape[1]:
        sc = np.concatenate([sc, np.ones(a.shape[1] - sc.shape[0])])
    return [[fx(a[i, j], sc[j]) for j in range(a.shape[1])] for i in range(a.shape[0])]


def shape(a):
    return [int(k) for k in np.shape(a)]


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if isinstance(o, (np.integer, int)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        raise MachineryError("float in a trace: %r" % o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, str):
        return o
    raise MachineryError("not traceable: %r" % (o,))


# ------------------------------------------------------------------ digests (for purity checks)
def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = np.asarray(a)
        h.update(str(a.dtype).encode()); h.update(str(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


def same(a, b):
    """bitwise/structural equality of two python/numpy values"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        return a.shape == b.shape and bool(np.array_equal(a, b)) if a.dtype == object else \
            a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    try:
        return type(a) == type(b) and bool(a == b)
    except Exception:
        return False


def head_tail(out, n=30):
    """the first error message of a TLC run, and its tail"""
    L = [x for x in out.splitlines() if not x.startswith('"')]
    err = []
    for i, x in enumerate(L):
        if x.startswith("Error:"):
            err = L[i:i + 14]
            break
    return "\n".join(x[:400] for x in err + ["..."] + L[-n:])


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="chk_%s_" % pid, dir=_workdir())
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.samples = []
        self.mc = []
        self.violations = []      # (key, detail dict)
        self.notes = {}
        self.exhaustive = []
        self.assumptions = []
        self.clauses = {}         # clause -> times evaluated is not known; failed counts
        self.rng = np.random.RandomState(1000 + seed)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------- TLC
    def _java(self, d, module, cfg, args, timeout, mem="6g", env=None):
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + mem, "-Xss48m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-config", module + ".cfg"] + args + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        return p.returncode, p.stdout.decode("utf8", "replace")

    def _dir(self):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        return d

    @staticmethod
    def _cfg(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), action_constraints=(), view=None, post=None, extra=""):
        s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
        if constants:
            s += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, v) for k, v in constants.items())
        for k, lst in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints), ("ACTION_CONSTRAINT", action_constraints)):
            for x in lst:
                s += "%s %s\n" % (k, x)
        if view:
            s += "VIEW %s\n" % view
        if post:
            s += "POSTCONDITION %s\n" % post
        return s + extra

    def model_check(self, module, constants=None, invariants=(), properties=(), constraints=(), view=None, spec="Spec", timeout=600, expect_ok=True, label=None):
        """Exhaustive TLC run of the design; adds its states to the evidence."""
        d = self._dir()
        rc, out = self._java(d, module, self._cfg(spec, constants, invariants, properties, constraints, view=view),
                             ["-workers", "8", "-coverage", "60"], timeout)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or not m:
            tail = head_tail(out)
            raise MachineryError("TLC model checking of %s failed (rc=%d):\n%s" % (module, rc, tail))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.mc.append(dict(module=label or module, constants={k: str(v) for k, v in (constants or {}).items()},
                            invariants=list(invariants), properties=list(properties), distinct_states=dist, states_generated=gen))
        return out

    def generate(self, module, constants=None, num=None, depth=20, tag="BEHAVIOUR ", spec="Spec", constraints=("Emit",), timeout=600, invariants=()):
        """Behaviours printed by TLC (BFS when num is None, random simulation otherwise)."""
        d = self._dir()
        args = ["-workers", "1"]
        if num is not None:
            args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed * 7919 + 17)]
        rc, out = self._java(d, module, self._cfg(spec, constants, invariants, (), constraints), args, timeout)
        if rc not in (0,) or "Error:" in out:
            raise MachineryError("TLC generation of %s failed (rc=%d):\n%s" % (module, rc, head_tail(out)))
        res, seen = [], set()
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"') and line[1:].startswith(tag):
                s = json.loads(line)[len(tag):]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            gen = int(m[-1].replace(",", "")) if m else 0
            dist = 0
        self.states += dist
        self.transitions += gen
        shutil.rmtree(d, ignore_errors=True)
        if not res:
            raise MachineryError("TLC generated no behaviour for %s:\n%s" % (module, "\n".join(out.splitlines()[-40:])))
        return res

    def validate(self, module, traces, label=None, keyf=None, constants=None, timeout=800, chunk=400, key_clause=None):
        """Check recorded traces against the specification; every broken clause is a violation."""
        if not traces:
            raise MachineryError("no traces to validate for " + module)
        total_bad = 0
        for c0 in range(0, len(traces), chunk):
            part = traces[c0:c0 + chunk]
            odd = []        # traces with a value no operator of the specification can take
            while True:
                d = self._dir()
                tf = os.path.join(d, "traces.json")
                with open(tf, "w") as f:
                    json.dump([jsonable(dict(cfg=t["cfg"], ev=t["ev"] if i not in odd else [])) for i, t in enumerate(part)], f)
                rc, out = self._java(d, module, self._cfg("Spec", constants, ("Report",)), ["-workers", "8"], timeout, mem="10g", env={"TRACES": tf})
                verdicts = {}
                for line in out.splitlines():
                    line = line.strip()
                    if line.startswith('"VERDICT '):
                        v = json.loads(json.loads(line)[len("VERDICT "):])
                        verdicts[v["t"]] = v["bad"]
                if rc == 0 and len(verdicts) == len(part):
                    break
                keep = os.path.join(VERIF, "work", "failed_%s" % self.pid)
                shutil.rmtree(keep, ignore_errors=True); shutil.copytree(d, keep)
                at = re.findall(r"^/\\ t = (\d+)", out, re.M)
                if "The error occurred when TLC was evaluating" not in out or not at or int(at[-1]) - 1 in odd:
                    raise MachineryError("TLC trace validation with %s failed (rc=%d, %d of %d verdicts; kept %s):\n%s" % (
                        module, rc, len(verdicts), len(part), keep, head_tail(out)))
                odd.append(int(at[-1]) - 1)
                shutil.rmtree(d, ignore_errors=True)
                if len(odd) >= 5:
                    verdicts = {i: verdicts.get(i, []) for i in range(1, len(part) + 1)}
                    break
            for i in odd:
                verdicts[i + 1] = [[1, "observation-outside-the-specification"]]
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m[-1])
                self.states += dist
                self.transitions += gen
            self.validated += len(part)
            self.events += sum(len(t["ev"]) for t in part)
            for i, t in enumerate(part, 1):
                for l, clause in sorted(verdicts[i], key=lambda x: (x[0], str(x[1]))):
                    total_bad += 1
                    self.violation(clause, module=module, name=t.get("name", ""), event=l, trace=t,
                                   key="%s|%s" % (t.get("key", t.get("name", "")), clause))
            shutil.rmtree(d, ignore_errors=True)
        if len(self.samples) < 6:
            t = traces[min(len(traces) - 1, len(traces) // 2)]
            s = json.dumps(jsonable(dict(cfg=t["cfg"], ev=t["ev"][:3])))
            self.samples.append(dict(module=module, name=t.get("name", ""), trace_head=s[:1500]))
        return total_bad

    def violation(self, clause, **kw):
        self.violations.append((clause, kw))

    # ---------------------------------------------------------- end of run
    def finish(self):
        known = load_known(self.pid)
        fresh, seen_known = [], {}
        for clause, kw in self.violations:
            k = kw.get("key", clause)
            hit = [e for e in known if re.fullmatch(e["match"], k)]
            if hit:
                seen_known[hit[0]["match"]] = hit[0]
            else:
                fresh.append((clause, kw))
        for e in known:
            # listed findings are announced on every run (and must be re-observed to be believed)
            if e["match"] in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        wall = time.time() - self.t0
        cov = dict(states=int(self.states), transitions=int(self.transitions),
                   traces_validated_against_impl=int(self.validated), events_validated=int(self.events),
                   samples=self.samples, model_checked=self.mc, known_findings_seen=len(seen_known))
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        shutil.rmtree(os.path.join(VERIF, "replays", self.pid), ignore_errors=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if fresh:
            rd = os.path.join(VERIF, "replays", self.pid)
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd, exist_ok=True)
            shown = {}
            for clause, kw in fresh:
                shown.setdefault((kw.get("key", clause)), (clause, kw))
            first = None
            for i, (k, (clause, kw)) in enumerate(list(shown.items())[:60]):
                path = os.path.join(rd, "v%02d.json" % i)
                tr = kw.get("trace")
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, clause=clause, key=k, event=kw.get("event"), module=kw.get("module"),
                                   name=kw.get("name"), trace=jsonable(dict(cfg=tr["cfg"], ev=tr["ev"])) if tr else None,
                                   detail=str(kw.get("detail", tr.get("detail", "") if tr else ""))), f, indent=1)
                first = first or path
                print("  broken clause %s at event %s of %s" % (clause, kw.get("event"), kw.get("name")))
            print("VIOLATION property=%s replay=%s" % (self.pid, first))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.states, self.transitions, self.validated, self.events, wall))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [e for e in d.get("known", []) if e["property"] == pid]


def _workdir():
    d = os.path.join(VERIF, "work")
    os.makedirs(d, exist_ok=True)
    return d


class Quiet:
    """Silence everything the code under test prints (python level)."""
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.f = open(os.devnull, "w")
        sys.stdout = self.f
        sys.stderr = self.f
        return self
    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.f.close()
        return False


def attempt(f, *a, **k):
    """('ok', value) or (exception class name, None)"""
    try:
        with Quiet():
            return "ok", f(*a, **k)
    except Exception as e:  # noqa
        return type(e).__name__, None


def configs(ctx, pred=None, mgp=False):
    """the configuration space enumerated by TLC from spec/SurrogateSpace.tla"""
    out = ctx.generate("SurrogateSpace", invariants=("Coherent",))
    out.sort(key=lambda r: json.dumps(r["cfg"], sort_keys=True))
    if not mgp:         # MGP has its own check
        out = [r for r in out if r["cfg"]["kind"] != "MGP"]
    if pred:
        out = [r for r in out if pred(r["cfg"], r["cap"])]
    return out


def tlaset(xs):
    return "{" + ", ".join(str(x) if not isinstance(x, str) else '"%s"' % x for x in xs) + "}"
