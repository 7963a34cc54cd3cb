"""C14: losing a worker does not lose the search."""
import stopit

from ..lib import (Check, Events, cheapen, Watch, base_cfg, behaviours, fit, gama_params, jobs, lost_tags, make_gama, share, short, stall_sum,
                   succeeded, tb, tune, warm)
from .. import seams


def work(tag, kind, dur):
    s = seams.SIM
    me = s.me()
    s.record("exec", tag=tag, pid=me.pid)
    s.compute(dur)
    if kind == "crash":
        s.fire("worker_crash")
        s.kill(me, 11, by="self")
        s._dispatch(me)  # never returns
    if kind == "exit":
        s.fire("worker_exit")
        raise SystemExit(3)
    if kind == "raise":
        raise ValueError(f"bad {tag}")
    return ("r", tag)


class C14(Check):
    id = "C14"
    quick_runs = 700
    thorough_runs = 40000
    nontrivial = "at least one worker died unexpectedly while the search was waiting"
    assumptions = ["fewer evaluations are lost than are in flight (otherwise see the known finding)",
                   "a worker that dies does not hold a lock of the queues (otherwise see the known finding)"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.3:
            return self.gen_early(rng) if rng.random() < 0.2 else self.gen_gama(rng)
        cfg = base_cfg(rng)
        n = rng.choice([1, 1, 2, 3, 4])
        njobs = rng.choice([3, 8, 20, 50])
        p_die = rng.choice([0.0, 0.05, 0.2, 0.5])
        dmax = rng.choice([0.05, 0.5, 2.0])
        jobs_ = []
        for t in range(njobs):
            u = rng.random()
            k = rng.choice(["crash", "exit"]) if u < p_die else ("raise" if u > 0.9 else "ok")
            jobs_.append([t, k, round(rng.uniform(0.1, 1.0) * dmax, 4)])
        faults = [dict(kind="kill_worker", t=rng.uniform(0.001, dmax * njobs / n), idx=rng.randint(0, 3), sig=rng.choice([9, 15, 11]))
                  for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        return dict(cfg=cfg, params=dict(mode="pool", n_jobs=n, jobs=jobs_, logfile=rng.random() < 0.5, limit=rng.choice([None, None, 10**6]),
                                         burst=rng.choice([2, 6, 1000])), faults=faults)

    def gen_gama(self, rng):
        cfg = base_cfg(rng)
        p = gama_params(rng, mode="gama", max_total_time=rng.choice([15, 25]), post=rng.choice(["best", "best", "ens"]))
        p["population_size"] = rng.choice([None, 5, 10])
        most = {"ea": p["n_jobs"], "asha": 6, "rs": 10}[p["search"]]
        by_self = rng.randint(0, min(3, most))
        cfg["behaviours"] = {"crash": 0.15, "exit": 0.15} if by_self else {}
        cfg["max_crashes"] = by_self
        tune(rng, cfg, p, (12, 40))
        hi = share(p)[1]
        faults = [dict(kind="kill_worker", t=rng.uniform(0.05, hi - 1), idx=rng.randint(0, 3), sig=rng.choice([9, 15, 11]))
                  for _ in range(rng.randint(0 if by_self else 1, most - by_self) if most > by_self else 0)]
        return dict(cfg=cfg, params=p, faults=faults)

    def gen_early(self, rng):
        """Many losses while the (fifty) start candidates are evaluated."""
        cfg = base_cfg(rng, p_stall=0.0)
        p = gama_params(rng, mode="gama", search="ea", max_total_time=20, post="best", n_jobs=rng.choice([1, 1, 2, 3]), early=True)
        tune(rng, cfg, p, (100, 160))
        hi = share(p)[1]
        faults = [dict(kind="kill_worker", t=rng.uniform(0.05, hi * 0.25), idx=rng.randint(0, 3), sig=rng.choice([9, 15, 11]))
                  for _ in range(rng.randint(3, 10))]
        return dict(cfg=cfg, params=p, faults=faults)

    def directed(self, tier):
        """Known findings: every candidate in flight is lost with its worker; an idle worker dies while it holds the lock of the queue;
        a worker dies while it sends a result."""
        cfg = dict(jitter=1.0, dur=(0.2, 0.2), p_native=0.0, n_rows=20, n_classes=2, quality=(0.3, 0.98))
        p = dict(mode="gama", task="clf", search="ea", n_jobs=1, max_total_time=30, post="best", scoring="accuracy", regularize_length=True,
                 space="clf", random_state=1, store="logs", max_eval_time=None, population_size=5, warm=1, all_lost=True)
        pool = dict(mode="pool", n_jobs=2, jobs=[[t, "ok", 0.2] for t in range(6)], logfile=False, limit=None, burst=1)
        return [dict(cfg=cfg, params=p, faults=[dict(kind="kill_worker", t=0.5, idx=0)]),
                dict(cfg=cfg, params=pool, faults=[dict(kind="kill_worker", t=0.5, idx=0, holding=True)]),
                dict(cfg=cfg, params=pool, faults=[dict(kind="kill_sender", t=0.5)])]

    def run(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        s, p = w.sim, w.params
        self.waits, self.exits = [], []
        wait, leave = AsyncEvaluator.wait_next, AsyncEvaluator.__exit__
        me = self

        def wait_next(pool, *a, **k):
            me.waits.append([s.now, float("inf")])
            try:
                return wait(pool, *a, **k)
            finally:
                me.waits[-1][1] = s.now

        def exit_(pool, *a):
            me.exits.append(s.now)
            return leave(pool, *a)

        AsyncEvaluator.wait_next, AsyncEvaluator.__exit__ = wait_next, exit_
        if p["mode"] == "pool":
            self.pool(w)
        else:
            self.gama(w)
        if not w.violations:
            self.replaced(w)
        deaths = self.deaths(w)
        w.nontrivial = bool(deaths)
        w.probes["deaths"] = len(deaths)

    def deaths(self, w):
        end = min(self.exits) if self.exits else w.sim.now
        return [(t, d["pid"]) for t, k, d in w.sim.history if k == "proc_end" and d["pid"] != w.main.pid and d["by"] != w.main.pid and t < end]

    def waiting(self, a, b):
        return sum(max(0.0, min(b, y) - max(a, x)) for x, y in self.waits)

    def replaced(self, w):
        """While waiting there are never fewer than n_jobs workers for long."""
        s, n = w.sim, w.params["n_jobs"]
        end = min(self.exits) if self.exits else s.now
        ev = []
        for q in s.procs.values():
            if q.parent is not None and q.spawned_at <= end:
                ev.append((q.spawned_at, 1))
                if q.ended_at is not None:
                    ev.append((q.ended_at, -1))
        ev.sort()
        ev = [e for e in ev if e[0] <= end] + [(end, 0)]
        cur, low, started = 0, None, False
        for t, d in ev:
            if low is not None:
                need = 2.0 + w.main.stalled_since(low - 1) + 2 * s.max_stall * bool(s.p_stall)
                if self.waiting(low, t) > need:
                    w.violate("not_replaced", f"only {cur} of {n} workers from {low:.3f}s to {t:.3f}s")
                    return
            cur += d
            if cur > n:
                w.violate("too_many", f"{cur} workers at {t:.3f}s, n_jobs={n}")
                return
            started = started or cur == n
            if started and cur < n:
                low = t if low is None else low
            else:
                low = None

    # ------------------------------------------------------------------ pool used directly
    def pool(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        s, p = w.sim, w.params
        AsyncEvaluator.defaults = {}
        todo = list(p["jobs"])
        handles, back = {}, set()
        s.max_sim_time = 20000
        with AsyncEvaluator(n_workers=p["n_jobs"], memory_limit_mb=p["limit"], logfile="memory.log" if p["logfile"] else None) as pool:
            while True:
                lost, unknown = lost_tags(w)
                open_ = [t for t in handles if t not in back and t not in lost]
                while todo and len(open_) < p["burst"] + unknown:
                    t, kind, d = todo.pop(0)
                    handles[t] = pool.submit(work, t, kind, d)
                    open_.append(t)
                if len(open_) <= unknown:
                    break
                n0 = s.nstalls
                limit = 5.0 + 4 * s.max_stall + sum(p["jobs"][t][2] for t in open_) + 2.5 * len(open_)
                with stopit.ThreadingTimeout(limit) as guard:
                    f = pool.wait_next()
                if not guard:
                    lost, unknown = lost_tags(w)
                    open_ = [t for t in handles if t not in back and t not in lost]
                    if len(open_) > unknown and (s.nstalls - n0) * s.max_stall < 2.0:
                        held = any(q.held for q in s.queues)
                        w.violate("queue_lock_lost" if held else "not_completed", f"calls {open_[:5]} were not lost with a worker, but did not complete within {limit:.0f}s; "
                                                   f"{len(w.workers())} workers are running")
                        return
                    continue
                hit = [t for t, h in handles.items() if h is f]
                if not hit or hit[0] in back:
                    w.violate("confused", "an unknown call (or one for the second time) was handed back")
                    return
                t = hit[0]
                back.add(t)
                kind = p["jobs"][t][1]
                good = (f.result == ("r", t) and f.exception is None) if kind == "ok" else \
                    (kind == "raise" and isinstance(f.exception, ValueError) and str(f.exception) == f"bad {t}")
                if not good:
                    w.violate("confused", f"call {t} ({kind}) came back with {f.result!r} / {f.exception!r}")
                    return
        for t in range(len(p["jobs"])):
            ex = [d for _, k, d in s.history if k == "exec" and d["tag"] == t]
            if len(ex) > 1:
                w.violate("executed_twice", f"call {t} was executed {len(ex)} times")
        w.probes["calls"] = len(back)

    # ------------------------------------------------------------------ whole search
    def gama(self, w):
        s, p = w.sim, w.params
        X, y = w.data(kind=p["task"])
        if p.get("early"):
            cheapen(w)
        g = make_gama(w, p)
        ev = Events(w, g)
        watch = Watch(w)
        pids = {}

        def done(rec):
            r = rec["fut"].result
            if r is not None:
                pids[rec["fid"]] = str(r.individual._id)

        watch.on_done = done
        t0 = s.now
        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p.get("warm") else None)
        took = w.fit_time
        lo, hi = share(p)
        T = p["max_total_time"]
        sub = {r["fid"]: r["iid"] for r in watch.submits()}
        for fid, iid in pids.items():
            if sub.get(fid) != iid:
                w.violate("confused", f"the evaluation of {sub.get(fid)} returned as {iid}")
        st = stall_sum(w)
        if took > hi + 15 + 5 + w.cfg.get("final_fit_time", 0.5) + st + (0.3 * T if p["post"] == "ens" else 0):
            w.violate("late", f"fit took {took:.1f}s with a budget of {T}s")
        if took < lo:
            w.violate("search_stopped", f"the search ended after {took:.2f}s of {hi:.1f}s ({short(exc) if exc else 'returned'})\n{tb(exc) if exc else ''}")
            return
        # something is always in progress until the end (apart from the time to notice a death)
        end = min(self.exits) if self.exits else s.now
        busy = sorted((a, min(b, s.procs[pid].ended_at or 1e18)) for pid, js in jobs(w).items() for a, b in js)
        at, gap = t0, (0.0, 0.0, 0.0)
        for a, b in busy + [(end, end)]:
            a = min(a, end)
            if a - at > gap[0]:
                gap = (a - at, at, a)
            at = max(at, b)
        ndeath = len(self.deaths(w))
        allow = 3.0 + 2 * ndeath * bool(s.p_stall) * s.max_stall + stall_sum(w, gap[1] - 1, gap[2])
        inflight = 50 if p.get("early") else p.get("warm") or {"ea": p["n_jobs"] + 2, "asha": 8, "rs": 50}[p["search"]]
        lost = ndeath
        if gap[0] > allow:
            kind = "stalled_all_lost" if lost >= inflight else "stalled"
            w.violate(kind, f"no evaluation in progress from {gap[1]:.2f}s to {gap[2]:.2f}s (search until {end:.2f}s) after {ndeath} "
                            f"workers died with {inflight} candidates in flight")
            return
        good = [e for e in ev.items[:-1] if succeeded(e["score"]) and (p["post"] == "best" or e["error"] is None)]
        if good and exc is not None:
            w.violate("no_model", f"{len(good)} evaluations succeeded but fit raised {short(exc)}\n{tb(exc)}")
        if good and exc is None and g.model is None:
            w.violate("no_model", f"{len(good)} evaluations succeeded but there is no model")
        w.probes["evaluations"] = len(ev)

    def stuck(self, w, kind, msg):
        torn = any(q.torn_by for q in getattr(w.sim, "queues", []))
        w.violate("torn_result" if torn else "stuck", f"the search does not end: {kind} {msg}")


CHECK = C14()
