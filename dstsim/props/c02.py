"""C02: no worker process outlives the search."""
import stopit

from ..lib import (ALL_KINDS, Check, Events, base_cfg, behaviours, fit, gama_params, leftovers, make_gama, short, tune,
                   unsent, warm)
from .c03 import work
from . import c13

SHUTDOWN_SEAMS = ["empty", "terminate", "wait", "get", "join", "is_alive"]
ANY_SEAMS = ["put", "poll", "sleep", "open", "write", "memory_info", "status", "spawn"]


def sigint(rng, T, shutdown=0.5):
    """An interrupt at a random point of the main process."""
    lines = rng.choice([0, 0, rng.randint(1, 30), rng.randint(1, 300)])
    u = rng.random()
    if u < shutdown:
        return dict(kind="sigint", phase="fit", seam=rng.choice(SHUTDOWN_SEAMS), n=rng.randint(1, 6), lines=lines)
    if u < shutdown + 0.25:
        k = rng.choice(ANY_SEAMS)
        return dict(kind="sigint", phase="fit", seam=k, n=rng.randint(1, 5) if k == "spawn" else rng.randint(1, 120), lines=lines)
    return dict(kind="sigint", t=rng.uniform(0.001, T * 1.2), lines=lines, group=rng.random() < 0.3)


class C02(Check):
    id = "C02"
    quick_runs = 900
    thorough_runs = 25000
    nontrivial = "at least one worker was started"
    assumptions = ["at most one interrupt or timeout arrives during the shutdown of a pool (as in the statement)",
                   "no interrupt between the fork of a worker and its registration, nor at the entry of __enter__/__exit__: "
                   "Python code cannot guard against either"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.5:
            return self.gen_pool(rng)
        cb = rng.choice([None, None, "raise", "kbd", "exit"])
        cfg = base_cfg(rng, behaviours=behaviours(rng, ALL_KINDS, 0.6))
        cfg["recv_time"] = rng.choice([0.0, 0.0, 0.05, 0.4])
        p = gama_params(rng, mode="fit", max_total_time=rng.choice([8, 12, 20]), cb=cb, cb_n=rng.randint(1, 12))
        p["warm"] = rng.choice([None, 4, 8])
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, None, 1, 7, 20])
        if rng.random() < 0.2:  # workers are stopped (and replaced) for the memory they use
            room = rng.choice([50, 200])
            cfg.update(main_rss=200.0, worker_rss=100.0, mem=[room * 0.05, room * rng.choice([1.2, 3.0, 8.0])])
            p["max_memory_mb"] = 200 + 100 * p["n_jobs"] + room
        tune(rng, cfg, p, (6, 50))
        faults = []
        T = p["max_total_time"]
        u = rng.random()
        if u < 0.45 and cb not in ("kbd", "exit"):
            faults.append(sigint(rng, T))
        elif u < 0.6:
            faults.append(dict(kind="spawn_error", n=rng.randint(1, p["n_jobs"] + 1)))
        elif u < 0.75:
            faults.append(dict(kind="io_error", op=rng.choice(["write", "open"]), path="memory.log", n=rng.choice([1, 1, 2, 5, 40])))
        if rng.random() < 0.4:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.01, T * 1.1), idx=rng.randint(0, 3)))
            if rng.random() < 0.3:
                faults[-1].update(holding=True, q=rng.randint(0, 1), t=rng.choice([0.02, faults[-1]["t"]]))
        return dict(cfg=cfg, params=p, faults=faults)

    def gen_pool(self, rng):
        cfg = base_cfg(rng, recv_time=rng.choice([0.0, 0.0, 0.05, 0.4]))
        n = rng.choice([1, 2, 3, 4])
        jobs = [[t, rng.choice(["int", "value", "none", "memory"]),
                 rng.choice([0.001, 0.1, 0.5, 2.0, 30.0, 1e4])] for t in range(rng.randint(0, 12))]
        end = rng.choice(["leave", "leave", "raise", "base", "timeout"])
        p = dict(mode="pool", n_jobs=n, jobs=jobs, end=end, take=rng.randint(0, 6), timeout=rng.choice([0.05, 0.5, 3.0, 11.0]),
                 logfile=rng.random() < 0.5, wait=rng.choice([None, 0, 2, 10]), defaults=False)
        if rng.random() < 0.2:  # workers are stopped (and replaced) for the memory they use, also just before the end
            room = rng.choice([50, 200])
            cfg.update(main_rss=c13.MAIN, worker_rss=c13.WORKER)
            p["limit"] = c13.MAIN + c13.WORKER * n + room
            p["end"] = end = rng.choice(["timeout", "timeout", "raise"])
            p["jobs"] = [[t, rng.choice([0.05, 0.1, 0.3]), room * rng.choice([0.1, 0.1, 0.1, 1.5])] for t in range(40)]
            p["take"] = rng.choice([1, 3, 8, 100])
        faults = []
        u = rng.random()
        if u < 0.6 and end != "timeout":
            faults.append(sigint(rng, 5.0, 0.7))
        elif u < 0.7:
            faults.append(dict(kind="spawn_error", n=rng.randint(1, n)))
        elif u < 0.8 and p["logfile"]:
            faults.append(dict(kind="io_error", op="open", path="memory.log", n=rng.choice([1, 1, 3])))
        if rng.random() < 0.4:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.01, 5), idx=rng.randint(0, 3)))
            if end == "timeout" and rng.random() < 0.5:
                faults[-1].update(holding=True, q=rng.randint(0, 1))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        s, p = w.sim, w.params
        s.world = w
        w.running, w.peak = [], 0
        s.max_sim_time = 3600
        if p["mode"] == "pool":
            exc = self.pool(w)
        else:
            exc = self.gama(w)
        started = [q for q in s.procs.values() if q.parent is not None]
        left = leftovers(w)
        if left:
            d = ", ".join(f"{q.pid} {'running' if q.alive else 'zombie'}" for q in left)
            w.violate("left_over", f"{len(left)} of {len(started)} workers remain after the search/pool ended "
                                   f"({short(exc) if exc else 'normally'}): {d}")
        stuck = unsent(w)
        if stuck:
            w.violate("exit", f"the program can not end: {len(stuck)} messages to workers, all of which have ended, are waiting to be sent "
                              f"({short(exc) if exc else 'the search/pool ended normally'})")
        w.nontrivial = bool(started)
        w.probes["workers"] = len(started)
        w.probes["ended_by_exception"] = int(exc is not None)

    def gama(self, w):
        p, s = w.params, w.sim
        X, y = w.data()
        g = make_gama(w, p)
        n = [0]

        def cb(e):
            n[0] += 1
            if p["cb"] == "raise":
                raise ValueError("callback")
            if n[0] == p["cb_n"]:
                if p["cb"] == "kbd":
                    s.fire("callback_interrupt")
                    raise KeyboardInterrupt
                if p["cb"] == "exit":
                    s.fire("callback_exit")
                    raise SystemExit(1)

        if p["cb"]:
            g.evaluation_completed(cb)
        return fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)

    def pool(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        p, s = w.params, w.sim
        AsyncEvaluator.defaults = {}
        kw = {} if p["wait"] is None else dict(wait_time_before_forced_shutdown=p["wait"])
        w.set_phase("fit")
        exc = None
        try:
            pool = AsyncEvaluator(n_workers=p["n_jobs"], memory_limit_mb=p.get("limit"), logfile="memory.log" if p["logfile"] else None, **kw)
            if p["end"] == "timeout":
                with stopit.ThreadingTimeout(p["timeout"]):
                    self.use(w, pool)
            else:
                self.use(w, pool)
        except BaseException as e:  # noqa
            from ..engine import HarnessGap
            if isinstance(e, HarnessGap):
                raise
            exc = e
        w.main.kbd = w.main.aim = None
        if w.main.tracing:
            s._untrace(w.main)
        w.set_phase("after")
        return exc

    def use(self, w, pool):
        p = w.params
        if p.get("limit"):
            return self.use_memory(w, pool)
        with pool:
            for t, kind, d in p["jobs"]:
                pool.submit(work, t, kind, d)
            short_jobs = sum(1 for j in p["jobs"] if j[2] < 5)
            if p["end"] == "timeout":
                for _ in p["jobs"]:
                    pool.wait_next()
                w.sim.sleep(20)
            for _ in range(min(p["take"], short_jobs if not w.faults and len(p["jobs"]) == short_jobs else 0)):
                pool.wait_next()
            if p["end"] == "raise":
                raise RuntimeError("in the body")
            if p["end"] == "base":
                raise SystemExit(2)

    def use_memory(self, w, pool):
        p = w.params
        with pool, stopit.ThreadingTimeout(p["timeout"]):
            for t, d, mb in p["jobs"]:
                pool.submit(c13.work, t, d, mb)
            for _ in range(min(p["take"], len(p["jobs"]))):
                pool.wait_next()
            if p["end"] == "raise":
                raise RuntimeError("in the body")


CHECK = C02()
