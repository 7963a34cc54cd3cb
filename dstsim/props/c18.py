"""C18: workers are kept busy and never exceed n_jobs."""
from ..lib import (Check, Events, Watch, base_cfg, behaviours, cheapen, fit, gama_params, jobs, make_gama, make_search, share, short,
                   tune, warm)

KINDS = ["raise", "memerr", "fail_score", "hang_py", "slow", "slow_native"]
GAP = 1.5  # s; the search looks for results every 0.05 s


class C18(Check):
    id = "C18"
    quick_runs = 600
    thorough_runs = 25000
    nontrivial = "evaluations completed and were followed by others"
    assumptions = ["idle times are bounded by 1.5 s plus injected stalls where evaluations take at least 0.2 s; the search polls every 0.05 s"]

    def gen(self, rng, i, tier):
        cheap = rng.random() < 0.85
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, rng.choice([0.2, 0.7])), final_fit_time=0.05, spawn_latency=rng.choice([0.001, 0.02, 0.1]))
        p = gama_params(rng, post="best", max_total_time=rng.choice([8, 12, 20]), n_jobs=rng.choice([1, 2, 2, 3, 4, 5, 8, 12]), cheap=cheap,
                        population_size=rng.choice([None, None, 1, 2, 3, 10]), max_eval_time=rng.choice([None, 1, 2]))
        p["jobs"] = p["n_jobs"]
        if rng.random() < 0.2:  # the number of jobs follows from that of the CPUs
            cfg["cpus"] = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12])
            p["jobs"] = rng.choice([None, None, -1])
            p["n_jobs"] = cfg["cpus"] if p["jobs"] == -1 else max(1, cfg["cpus"] // 2)
        p["warm"] = rng.choice([None, None, p["n_jobs"], p["n_jobs"] + 1, p["n_jobs"] + 2, 2 * p["n_jobs"] + 1])
        p["restart"] = p["search"] == "ea" and rng.random() < 0.15
        p["fast"] = rng.random() < 0.25
        if cheap:
            tune(rng, cfg, p, (40, 160))
            if not p["fast"]:
                lo = rng.choice([0.04, 0.08, 0.2])  # per fold
                cfg["dur"] = [lo, lo * rng.choice([1.0, 2.0, 6.0])]
        else:
            tune(rng, cfg, p, (10, 40))
        faults = []
        if rng.random() < 0.15:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append(dict(kind="kill_worker", t=rng.uniform(0.2, 12), idx=rng.randrange(4)))
        if rng.random() < 0.1:
            faults.append(dict(kind="stall_worker", t=rng.uniform(0.2, 8), idx=rng.randrange(4), dt=rng.choice([1.0, 4.0])))
        p["limit"] = None
        if rng.random() < 0.12:  # workers are stopped because of memory usage: no more than n_jobs at any time either
            cfg.update(main_rss=200.0, worker_rss=100.0)
            p["limit"] = 200 + 100 * p["n_jobs"] + 100
            for _ in range(rng.choice([1, 2, 4])):
                t = rng.uniform(0.2, 10)
                faults += [dict(kind="main_rss", t=t, mb=300.0), dict(kind="main_rss", t=t + rng.choice([0.1, 0.5, 2.0]), mb=0)]
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        if p["cheap"]:
            cheapen(w)
        X, y = w.data(kind=p["task"])
        watch = Watch(w)
        asked = []
        if p["restart"]:
            n = [0]

            def restart():
                n[0] += 1
                yes = n[0] % 23 == 0
                if yes:
                    asked.append(n[0])
                return yes
            p = {**p, "_restart": restart}
        search = make_search(p)
        try:
            g = make_gama(w, {**p, "max_memory_mb": p["limit"], "n_jobs": p["jobs"]}, search=search)
        except (ValueError, TypeError, AttributeError) as e:
            w.violate("refused", f"n_jobs={p['jobs']} is refused on a machine with {w.cfg.get('cpus', 8)} CPUs: {short(e)}")
            return
        given = warm(g, p["warm"]) if p["warm"] else None
        t0 = s.now
        self.waits(w, watch)
        exc = fit(w, g, X, y, warm_start=given)
        end = max([r["t"] for r in watch.log], default=t0)
        # --- never more workers than jobs
        n = p["n_jobs"]
        edges = []
        for q in s.procs.values():
            if q.parent is not None:
                edges.append((q.spawned_at, 1))
                if q.ended_at is not None:
                    edges.append((q.ended_at, -1))
        k = 0
        for t, d in sorted(edges):
            k += d
            if k > n:
                w.violate("too_many", f"{k} worker processes at {t:.2f}s, n_jobs is {n}" + self.cpus(w, p))
                return
        if any(r["op"] == "done" for r in watch.log):
            k = sum(d == 1 for _, d in edges)
            if k < n:
                w.violate("too_few", f"only {k} worker processes were started, n_jobs is {n}" + self.cpus(w, p))
                return
        for t, kk, d in s.history:
            if kk == "stub_fit" and d["pid"] == w.main.pid and t0 < t <= end:
                w.violate("main", f"a pipeline was trained in the main process during the search, at {t:.2f}s")
                return
        # --- enough work, not too much
        inflight, ndone = 0, 0
        start = None
        clean = not [f for f in w.faults if f["kind"] in ("kill_worker", "main_rss")]
        seen_done = False
        bound = None
        for r in watch.log:
            if r["op"] == "submit":
                inflight += 1
                if bound is not None and inflight > bound and not p["restart"]:
                    w.violate("ahead", f"{inflight} evaluations submitted and not handed back at {r['t']:.2f}s; {start} start candidates, n_jobs {n}")
                    return
                if seen_done and p["search"] == "ea" and clean and not p["restart"] and inflight > n + 2:
                    w.violate("ahead", f"offspring submitted at {r['t']:.2f}s although {inflight - 1} evaluations are in flight for {n} workers")
                    return
            elif r["op"] == "wait":
                if start is None:
                    start = inflight
                    bound = max(start, n + 2)
                    if given is not None and p["search"] != "asha" and start != len(given):
                        w.violate("start", f"{start} evaluations submitted at the start, {len(given)} start candidates given")
                        return
                if clean and inflight < n:
                    w.violate("starved", f"the search waits at {r['t']:.2f}s with {inflight} evaluations in flight for {n} workers ({ndone} completed)")
                    return
            else:
                seen_done = True
                ndone += 1
                inflight -= 1
        # --- and it is worked on
        if clean and not p["fast"]:
            worst = 0.0
            stalls = [(a, d) for q in s.procs.values() for a, d in q.stalls]
            stop = min(end, t0 + share(p)[1])
            for pid, js in jobs(w).items():
                q = s.procs[pid]
                prev = q.spawned_at
                for a, b in js + [[stop, stop]]:
                    if prev < stop and a <= stop:
                        gap = a - prev - sum(d for x, d in stalls if x <= a and x + d >= prev)
                        worst = max(worst, gap)
                        if gap > GAP:
                            w.violate("idle", f"worker {pid} was idle for {gap:.2f}s from {prev:.2f}s on (search from {t0:.2f}s to {stop:.2f}s)")
                            return
                    prev = b
            w.probes["worst_gap"] = round(worst, 3)
            used = len(jobs(w))
            if ndone > 3 * n + 3 and used < n:
                w.violate("unused", f"only {used} of {n} workers were used for {ndone} evaluations")
                return
        w.nontrivial = ndone >= 2
        w.probes["done"] = ndone

    @staticmethod
    def cpus(w, p):
        return "" if p["jobs"] == p["n_jobs"] else f" (given as {p['jobs']}, {w.cfg['cpus']} CPUs)"

    @staticmethod
    def waits(w, watch):
        """Also record when the search starts to wait."""
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        inner = AsyncEvaluator.wait_next

        def wait_next(pool, *a, **k):
            watch.log.append(dict(op="wait", t=w.sim.now, pool=0))
            return inner(pool, *a, **k)
        AsyncEvaluator.wait_next = wait_next

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C18()
