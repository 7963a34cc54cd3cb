"""C03: every submitted call is executed once and handed back once with its own outcome."""
import pickle
import struct

import numpy as np
import pandas as pd

from ..engine import HarnessGap
from ..lib import Check, base_cfg
from .. import seams


class Res:
    """Looks like an evaluation record: has an error field."""

    def __init__(self, tag, error=None):
        self.tag, self.error = tag, error

    def __eq__(self, other):
        return isinstance(other, Res) and self.tag == other.tag

    def __repr__(self):
        return f"Res({self.tag}, {self.error!r})"


class JobError(Exception):
    pass


class CodedError(Exception):
    """An exception with several arguments, as operating system errors have."""

    def __init__(self, code, text):
        super().__init__(code, text)
        self.code = code

    def __str__(self):
        return f"[{self.code}] {self.args[1]}"


VALUES = ["none", "zero", "empty", "int", "str", "tuple", "list", "res", "res_mem", "tuple_res", "big", "dict", "false", "array", "frame", "tuple_array"]
RAISES = ["value", "job", "memory", "key", "struct", "coded", "os", "multi", "noargs"]


def value(kind, tag):
    return {"none": None, "zero": 0, "empty": (), "int": 1000 + tag, "str": f"r{tag}", "tuple": (tag, "x"),
            "list": [tag], "res": Res(tag), "res_mem": Res(tag, MemoryError("big")), "tuple_res": (Res(tag), tag),
            "big": [tag] * 20000, "dict": {"tag": tag}, "false": False, "array": np.arange(3) + tag,
            "frame": pd.DataFrame({"a": [tag, 1]}), "tuple_array": (np.arange(3) + tag, tag)}[kind]


def error(kind, tag):
    return {"value": ValueError(f"bad {tag}"), "job": JobError(f"job {tag}"), "memory": MemoryError(f"mem {tag}"),
            "key": KeyError(tag), "struct": struct.error(f"st {tag}"), "coded": CodedError(tag, "late"),
            "os": FileNotFoundError(2, "no such", f"f{tag}"), "multi": ValueError("a", tag, None), "noargs": RuntimeError()}[kind]


def work(tag, kind, dur, extra=None, **kw):
    s = seams.SIM
    s.record("exec", tag=tag, pid=s.me().pid, extra=extra, kw=dict(kw))
    me = s.me()
    s.world.running.append(me)
    s.world.peak = max(s.world.peak, sum(q.alive for q in s.world.running))
    try:
        if dur > 0:
            (s.native if tag % 2 else s.compute)(dur)
        if kind in RAISES:
            raise error(kind, tag)
        return value(kind, tag)
    finally:
        s.world.running.remove(me)


class C03(Check):
    id = "C03"
    quick_runs = 1500
    thorough_runs = 60000
    nontrivial = "at least two calls were submitted and completed"
    assumptions = ["results and exceptions survive pickling (documented requirement)"]

    def gen(self, rng, i, tier):
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        njobs = rng.choice([1, 2, 3, 5, 8, 13, 25]) if tier == "quick" else rng.choice([1, 3, 8, 20, 60])
        p_raise = rng.choice([0.0, 0.3, 0.7])
        same = rng.random() < 0.3
        jobs = []
        for t in range(njobs):
            k = rng.choice(RAISES) if rng.random() < p_raise else rng.choice(VALUES)
            d = 0.0 if rng.random() < 0.2 else (0.2 if same else rng.choice([0.001, 0.05, 0.3, 1.5]) * rng.uniform(0.5, 1.5))
            jobs.append([t, k, d, rng.choice([None, None, "x", t])])
        if rng.random() < 0.3:  # the very same call more than once
            for _ in range(rng.randint(1, 4)):
                jobs.insert(rng.randint(0, len(jobs)), list(rng.choice(jobs)))
        if rng.random() < (0.01 if tier == "quick" else 0.004):  # many calls
            jobs = [[t, rng.choice(["int", "none", "value"]), 0.0, None] for t in range(rng.choice([150, 300, 1100]))]
        return dict(cfg=base_cfg(rng),
                    params=dict(n_jobs=n, jobs=jobs, burst=rng.choice([1, 2, 5, 100]), logfile=rng.random() < 0.3,
                                defaults=rng.random() < 0.6, memory=rng.random() < 0.2,
                                poll=rng.choice([0.05, 0.05, 0.001, 0.5]), pools=rng.choice([1, 1, 2]),
                                early=rng.random() < 0.3))

    def run(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        p = w.params
        s = w.sim
        s.world = w
        w.running, w.peak = [], 0
        for npool in range(p["pools"]):
            AsyncEvaluator.defaults = {"shared": ["d", npool], "other": npool} if p["defaults"] else {}
            pool = AsyncEvaluator(n_workers=p["n_jobs"], memory_limit_mb=10**6 if p["memory"] else None,
                                  logfile="memory.log" if p["logfile"] else None)
            self.one(w, pool, npool)
            try:
                with pool:
                    w.violate("reentry", "the same evaluator pool could be entered a second time")
            except RuntimeError:
                pass
            except Exception as x:
                if not w.violations:
                    w.violate("reentry", f"entering the same evaluator pool a second time is not refused but fails: {x!r}")
                return

    def one(self, w, pool, npool):
        p, s = w.params, w.sim
        handles, todo, back = {}, list(p["jobs"]), {}
        off = 10000 * npool
        total = sum(j[2] for j in p["jobs"])
        t0 = s.now
        s.max_sim_time = s.now + 300 + 10 * total
        with pool:
            if self.empty_wait(w, pool):
                return
            while todo or len(back) < len(handles):
                burst = w.params["burst"]
                while todo and burst > 0:
                    t, kind, d, extra = todo.pop(0)
                    kw = {} if extra is None else {"extra": extra}
                    handles[len(handles)] = (pool.submit(work, t + off, kind, d, **kw), t, kind, d, extra)
                    burst -= 1
                if len(back) < len(handles):
                    try:
                        fut = pool.wait_next(poll_time=w.params["poll"]) if w.params["poll"] != 0.05 else pool.wait_next()
                    except (RuntimeError, KeyError) as x:
                        w.violate("refused", f"{len(handles) - len(back)} calls are outstanding but waiting for them raises {x!r}")
                        return
                    hit = [i for i, h in handles.items() if h[0] is fut]
                    if len(hit) != 1:
                        w.violate("foreign", f"submit returned the handle which wait_next returned {len(hit)} times: {fut!r}")
                        return
                    i = hit[0]
                    if i in back:
                        w.violate("twice", f"call {handles[i][1]} was handed back twice")
                        return
                    back[i] = s.now
                    self.outcome(w, fut, handles[i][1] + off, *handles[i][2:])
                if p["early"] and not todo and len(back) >= len(handles) // 2:
                    break
            else:
                self.empty_wait(w, pool)
        took = s.now - t0
        ex, done, sent = {}, {}, {}
        for _, k, d in s.history:
            if k == "exec" and d["tag"] >= off:
                ex.setdefault(d["tag"], []).append(d)
        for i, h in handles.items():
            t = h[1] + off
            sent.setdefault(t, []).append(h)
            done[t] = done.get(t, 0) + (i in back)
        for t, hs in sent.items():
            es = ex.pop(t, [])
            if not done[t] <= len(es) <= len(hs):
                w.violate("executions", f"call {t} was submitted {len(hs)} times, completed {done[t]} times and executed {len(es)} times")
            want = {"shared": ["d", npool], "other": npool} if p["defaults"] else {}
            for e in es:
                if e["kw"] != want or e["extra"] != hs[0][4]:
                    w.violate("arguments", f"call {t} ran with {e}, expected extra={hs[0][4]} defaults={want}")
        if ex:
            w.violate("executions", f"calls {sorted(ex)} were executed, but never submitted")
        if w.peak > p["n_jobs"]:
            w.violate("too_parallel", f"{w.peak} calls ran at the same time on {p['n_jobs']} workers")
        slack = 15 + total + len(handles) * (1.0 + 2 * p["poll"]) + 4 * s.nstalls * s.max_stall
        if took > slack:
            w.violate("slow", f"{len(handles)} calls of {total:.1f}s in total took {took:.1f}s on {p['n_jobs']} workers")
        w.nontrivial = len(back) >= 2
        w.probes["calls"] = w.probes.get("calls", 0) + len(back)

    def empty_wait(self, w, pool):
        """With nothing outstanding wait_next must raise, not block."""
        s = w.sim
        s.max_sim_time, keep = s.now + 300, s.max_sim_time
        try:
            pool.wait_next()
        except RuntimeError:
            s.max_sim_time = keep
            return False
        w.violate("empty_wait", "wait_next returned although no call was outstanding")
        return True

    def outcome(self, w, fut, t, kind, d, extra):
        if kind in RAISES:
            e = error(kind, t)
            if fut.result is not None:
                w.violate("outcome", f"call {t} raised {e!r} but has result {fut.result!r}")
            if not (type(fut.exception) is type(e) and str(fut.exception) == str(e) and fut.exception.args == e.args):
                w.violate("outcome", f"call {t} raised {e!r} but carries exception {fut.exception!r}")
            elif not (isinstance(fut.traceback, str) and type(e).__name__ in fut.traceback and work.__name__ in fut.traceback):
                w.violate("outcome", f"call {t} raised {e!r} but carries traceback {fut.traceback!r}")
        else:
            v = value(kind, t)
            ok = type(fut.result) is type(v)
            if kind in ("array", "frame", "tuple_array"):
                ok = ok and pickle.dumps(fut.result) == pickle.dumps(pickle.loads(pickle.dumps(v)))
            else:
                ok = ok and fut.result == v
            if kind == "res_mem":
                ok = ok and "MemoryError" in (str(fut.result.error) or repr(fut.result.error)) or \
                    (ok and isinstance(fut.result.error, MemoryError))
            elif isinstance(v, Res):
                ok = ok and fut.result.error is None
            if not ok or fut.exception is not None:
                w.violate("outcome", f"call {t} returned {v!r} but carries result {fut.result!r} exception {fut.exception!r}")

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"calls outstanding but nothing happens: {kind} {msg}")


CHECK = C03()
