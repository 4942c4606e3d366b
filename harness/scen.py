"""Scenario guard: whatever escapes the code under test becomes a Crash event (a broken clause)."""
import os, pickle, select, signal, struct, sys, time, traceback
import numpy as np


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang("timeout")


LIMIT = 40


def scenario(name, cfg, fn, limit=LIMIT, key=None):
    """Runs fn() -> list of events; exceptions and hangs become a Crash event."""
    np.random.seed(12345)
    ev = []
    detail = ""
    # the limit is on processor time (the machine may be busy), with a generous one on the clock
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(4 * limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        ev = fn()
    except Hang:
        ev = [dict(op="Crash", exc="Hang")]
        detail = "no result within %d s\n%s" % (limit, traceback.format_exc())
    except Exception as e:  # noqa
        ev = [dict(op="Crash", exc=type(e).__name__)]
        detail = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
    return dict(cfg=cfg, ev=ev, name=name, key=key or name, detail=detail)


def _child(jobs, idx, w):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        with os.fdopen(w, "wb", 0) as f:
            for i in idx:
                name, cfg, fn, kw = jobs[i]
                r = scenario(name, cfg, fn, **kw)
                b = pickle.dumps((i, r))
                f.write(struct.pack("<Q", len(b)) + b)
    finally:
        os._exit(0)


def parallel(jobs, procs=8, size=None):
    """jobs: list of (name, cfg, fn[, kw]); run in forked processes, results in order.
    A process that dies or stops answering turns the job it was running into a Crash event."""
    jobs = [(tuple(j) + ({},))[:4] for j in jobs]
    res = [None] * len(jobs)
    if not jobs:
        return res
    size = size or max(1, min(40, len(jobs) // (procs * 4)))
    queue = [list(range(k, min(k + size, len(jobs)))) for k in range(0, len(jobs), size)]
    live = {}       # fd -> [pid, remaining indices, buffer, deadline]

    def lost(i, why):
        name, cfg, fn, kw = jobs[i]
        res[i] = dict(cfg=cfg, ev=[dict(op="Crash", exc=why)], name=name, key=kw.get("key") or name, detail="the process running this scenario died or hung: " + why)

    def limit(i):
        return 4 * jobs[i][3].get("limit", LIMIT) + 15

    while queue or live:
        while queue and len(live) < procs:
            idx = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in live:
                    os.close(fd)
                _child(jobs, idx, w)
            os.close(w)
            live[r] = [pid, idx, b"", time.time() + limit(idx[0])]
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in list(live):
            L = live[fd]
            over = False
            why = "Died"
            if fd in ready:
                b = os.read(fd, 1 << 20)
                if b:
                    L[2] += b
                    while len(L[2]) >= 8:
                        n = struct.unpack("<Q", L[2][:8])[0]
                        if len(L[2]) < 8 + n:
                            break
                        i, r = pickle.loads(L[2][8:8 + n])
                        L[2] = L[2][8 + n:]
                        res[i] = r
                        L[1] = [k for k in L[1] if k != i]
                        if L[1]:
                            L[3] = time.time() + limit(L[1][0])
                else:
                    over = True
            elif time.time() > L[3]:
                over, why = True, "Hang"
                os.kill(L[0], signal.SIGKILL)
            if over:
                os.close(fd)
                os.waitpid(L[0], 0)
                del live[fd]
                if L[1]:
                    lost(L[1][0], why)
                    if L[1][1:]:
                        queue.append(L[1][1:])
    return res
