"""C13: the memory limit is enforced by stopping the largest worker."""
import stopit

from ..engine import HarnessGap
from ..lib import (Check, Watch, alive_in, base_cfg, fit, gama_params, lost_tags, make_gama, rss_range, share, tune)
from .. import seams

MAIN, WORKER = 200.0, 100.0


def work(tag, dur, mb):
    s = seams.SIM
    me = s.me()
    s.record("exec", tag=tag, pid=me.pid)
    me.extra_rss = mb * 2**20
    try:
        s.compute(dur)
    finally:
        me.extra_rss = 0.0
    return ("r", tag)


class C13(Check):
    id = "C13"
    quick_runs = 900
    thorough_runs = 40000
    nontrivial = "a worker was stopped because of its memory usage"
    assumptions = ["memory is seen through resident set sizes, as the code reads them", "a reading of all processes takes well below a second"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.12:
            return self.gen_gama(rng)
        if rng.random() < 0.2:
            return self.gen_ratio(rng)
        cfg = base_cfg(rng, main_rss=MAIN, worker_rss=WORKER)
        n = rng.choice([1, 2, 2, 3, 4])
        idle = MAIN + n * WORKER
        limit = idle + rng.choice([50, 200, 1000])
        room = limit - idle
        njobs = rng.choice([8, 20, 40, 80])
        p_heavy = rng.choice([0.0, 0.02, 0.05, 0.2, 0.6])
        dmax = rng.choice([0.05, 0.3, 1.5])
        jobs = []
        for t in range(njobs):
            if rng.random() < p_heavy:
                mb = room * rng.choice([0.6, 1.1, 2.0, 5.0])
                d = rng.choice([0.5, 3.0, 6.0])
            else:
                mb = rng.uniform(0, room / n * rng.choice([0.3, 0.95]))
                d = rng.uniform(0.2, 1.0) * dmax
            jobs.append([t, round(d, 4), round(mb, 2)])
        if rng.random() < 0.4:  # well-behaved first, then heavy
            jobs.sort(key=lambda j: (j[2] > room / n))
            jobs = [[k, j[1], j[2]] for k, j in enumerate(jobs)]
        faults = []
        if rng.random() < 0.2:
            t = rng.uniform(0.2, 10)
            faults += [dict(kind="main_rss", t=t, mb=room * rng.uniform(0.5, 2.0)),
                       dict(kind="main_rss", t=t + rng.choice([0.2, 1.0, 4.0]), mb=0)]
        if rng.random() < 0.15:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.2, 10), idx=rng.randint(0, 3)))
        if rng.random() < 0.1:
            limit = None
        return dict(cfg=cfg, params=dict(mode="pool", n_jobs=n, jobs=jobs, limit=limit, burst=rng.choice([2, 6, 1000]),
                                         logfile=rng.random() < 0.5), faults=faults)

    def gen_ratio(self, rng):
        """One call at a time, violations after a chosen number of completed ones: around the 5% where workers are given up."""
        cfg = base_cfg(rng, main_rss=MAIN, worker_rss=WORKER, p_stall=0.0)
        n = rng.choice([2, 3, 4])
        room = 200.0
        at = rng.choice([[18], [19], [19], [20], [20, 38], [22, 38], [25, 37], [21, 39], [25, 38, 57], [19, 38], [19, 39], [20, 39, 58]])
        jobs, light = [], 0
        for k in at + [at[-1] + 3]:
            while light < k:
                jobs.append([len(jobs), round(rng.uniform(0.01, 0.1), 4), round(rng.uniform(0, room * 0.9), 2)])
                light += 1
            if k in at:
                jobs.append([len(jobs), 6.0, round(room * rng.choice([1.2, 3.0]), 2)])
        return dict(cfg=cfg, params=dict(mode="pool", n_jobs=n, jobs=jobs, limit=MAIN + n * WORKER + room, burst=1, logfile=rng.random() < 0.5),
                    faults=[])

    def gen_gama(self, rng):
        cfg = base_cfg(rng, main_rss=MAIN, worker_rss=WORKER)
        p = gama_params(rng, mode="gama", max_total_time=rng.choice([15, 25]), n_jobs=rng.choice([1, 2, 3]), post="best")
        room = rng.choice([100, 400])
        limit = int(MAIN + p["n_jobs"] * WORKER + room)
        p["max_memory_mb"] = rng.choice([limit, limit, limit, None])
        p["limit"] = p["max_memory_mb"]
        cfg["mem"] = [room * 0.05, room * rng.choice([0.9, 1.5, 3.0])]
        tune(rng, cfg, p, (8, 30))
        return dict(cfg=cfg, params=p, faults=[])

    def run(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        s, p = w.sim, w.params
        self.waits, self.exits, self.back = [], [], []
        wait, leave = AsyncEvaluator.wait_next, AsyncEvaluator.__exit__
        me = self

        def wait_next(pool, *a, **k):
            me.waits.append([s.now, float("inf")])
            try:
                f = wait(pool, *a, **k)
                me.back.append(s.now)
                return f
            finally:
                me.waits[-1][1] = s.now

        def exit_(pool, *a):
            me.exits.append(s.now)
            return leave(pool, *a)

        AsyncEvaluator.wait_next, AsyncEvaluator.__exit__ = wait_next, exit_
        if p["mode"] == "pool":
            self.pool(w)
        else:
            X, y = w.data()
            fit(w, make_gama(w, p), X, y)
        self.judge(w)

    def pool(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        s, p = w.sim, w.params
        AsyncEvaluator.defaults = {}
        todo = list(p["jobs"])
        handles, back = {}, set()
        slack = 3.0 + 4 * s.max_stall
        s.max_sim_time = 20000
        with AsyncEvaluator(n_workers=p["n_jobs"], memory_limit_mb=p["limit"], logfile="memory.log" if p["logfile"] else None) as pool:
            while True:
                while todo and len(handles) - len(back) < p["burst"]:
                    t, d, mb = todo.pop(0)
                    handles[t] = pool.submit(work, t, d, mb)
                lost, unknown = lost_tags(w)
                open_ = [t for t in handles if t not in back and t not in lost]
                if len(open_) <= unknown and not todo:
                    break
                if len(open_) <= unknown:  # everything in flight is lost, go on with new calls
                    t, d, mb = todo.pop(0)
                    handles[t] = pool.submit(work, t, d, mb)
                n0 = s.nstalls
                open_ = [t for t in handles if t not in back and t not in lost]
                limit = slack + sum(p["jobs"][t][1] for t in open_) + 1.0 * len(open_)
                with stopit.ThreadingTimeout(limit) as guard:
                    f = pool.wait_next()
                if not guard:
                    lost, unknown = lost_tags(w)
                    open_ = [t for t in handles if t not in back and t not in lost]
                    if len(open_) > unknown and (s.nstalls - n0) * s.max_stall < 2.0:
                        w.violate("not_completed", f"{len(open_)} calls that no stopped worker was working on did not complete within "
                                                   f"{limit:.0f}s; {len(w.workers())} workers are running")
                        return
                    if not todo:
                        break
                    continue
                hit = [t for t, h in handles.items() if h is f]
                if not hit or hit[0] in back:
                    w.violate("foreign", "an unknown call (or one for the second time) was handed back")
                    return
                back.add(hit[0])
                if f.result != ("r", hit[0]):
                    w.violate("result", f"call {hit[0]} came back with {f.result!r} / {f.exception!r}")
        w.probes["calls"] = len(back)

    # ------------------------------------------------------------------ oracle
    def judge(self, w):
        s, p = w.sim, w.params
        limit, n = p["limit"], p["n_jobs"]
        end = min(self.exits) if self.exits else s.now
        kills = []  # by the main process while it was waiting
        for t, k, d in s.history:
            if k == "proc_end" and d["by"] == w.main.pid and t <= end:
                kills.append((t, s.procs[d["pid"]]))
        faults = [t for t, k, d in s.history if k == "fault_kill"]
        w.nontrivial = bool(kills)
        w.probes["stopped"] = len(kills)
        if w.main.state != "alive":
            w.violate("main", "the main process was stopped")
        prev = -1.0
        v = 0
        since = 0.0  # time of the last reduction
        for j, (t, q) in enumerate(kills):
            stall = w.main.stalled_since(t - 3)
            t0 = max(t - 0.3 - stall, prev + 1e-9)
            others = [x for x in alive_in(w, t0, t) if x is not q and (x.ended_at is None or x.ended_at > t0)]
            if limit is None:
                w.violate("no_limit", f"worker {q.pid} was stopped at {t:.3f}s although no memory limit is set")
                return
            tot = rss_range(w.main, t0, t)[1] + rss_range(q, t0, t)[1] + sum(rss_range(x, t0, t)[1] for x in others)
            if tot <= limit:
                w.violate("within_limit", f"worker {q.pid} was stopped at {t:.3f}s although at most {tot:.0f} of {limit} MB were in use since {t0:.3f}s")
                return
            mine = rss_range(q, t0, t)[1]
            for x in others:
                if x.spawned_at < t0 and (x.ended_at is None or x.ended_at > t) and rss_range(x, t0, t)[0] > mine:
                    w.violate("not_largest", f"worker {q.pid} with {mine:.0f} MB was stopped at {t:.3f}s, worker {x.pid} used {rss_range(x, t0, t)[0]:.0f} MB")
                    return
            # replacement
            v += 1
            b = sum(since < x <= t for x in self.back)
            ratio = v / (v + b)
            running = [x for x in others if x.ended_at is None or x.ended_at > t]
            nxt = kills[j + 1][0] if j + 1 < len(kills) else float("inf")
            after = sum(d for a, d in w.main.stalls if t <= a <= t + 3)
            until = min(t + 1.0 + after + 2 * s.max_stall * bool(s.p_stall), nxt - 1e-9)
            near = any(t - 2 - stall - 2 * s.max_stall < f < until for f in faults)
            started = [x for x in s.procs.values() if x.parent is not None and t < x.spawned_at <= until]
            if not near and until < end - 0.1:
                # exact, unless workers were lost otherwise: then a violation may have found no worker to stop
                must = ratio < (0.045 if faults else 0.05) or not running
                may = ratio < (0.06 if faults else 0.05) or not running
                text = (f"worker {q.pid} was stopped at {t:.3f}s as violation {v} with {b} completed evaluations since the last "
                        f"reduction ({ratio:.1%}), {len(running)} others running")
                if must and not started:
                    w.violate("not_replaced", f"{text}: it was not replaced")
                    return
                if not may and started:
                    w.violate("replaced", f"{text}: it was replaced")
                    return
                if len(started) > 1:
                    w.violate("replaced", f"{text}: {len(started)} workers were started for it")
                    return
            if not started:
                v, since = 0, t
            prev = t
        self.counts(w, end, n)
        if limit is not None and not w.violations:
            self.obligation(w, limit, end, kills)

    def counts(self, w, end, n):
        """Never more than n_jobs workers, never none for long."""
        s = w.sim
        ev = []
        for q in s.procs.values():
            if q.parent is not None and q.spawned_at <= end:
                ev.append((q.spawned_at, 1, q.pid))
                if q.ended_at is not None:
                    ev.append((q.ended_at, -1, q.pid))
        ev.sort()
        cur, zero = 0, None
        for t, d, pid in ev:
            if t > end:
                break
            cur += d
            if cur > n:
                w.violate("too_many", f"{cur} workers at {t:.3f}s, n_jobs={n}")
                return
            if cur == 0:
                zero = t
            elif zero is not None:
                if t - zero > 1.0 + w.main.stalled_since(zero - 1) + 2 * s.max_stall and self.waiting(zero, t) > 0.8 * (t - zero):
                    w.violate("no_worker", f"no worker from {zero:.3f}s to {t:.3f}s")
                zero = None
        if cur == 0 and zero is not None and self.waiting(zero, end) > 1.0 + w.main.stalled_since(zero - 1) + 2 * s.max_stall:
            w.violate("no_worker", f"no worker from {zero:.3f}s on")

    def waiting(self, a, b):
        return sum(max(0.0, min(b, y) - max(a, x)) for x, y in self.waits)

    def obligation(self, w, limit, end, kills):
        """Above the limit for long while waiting: something has to be stopped."""
        s = w.sim
        pts = {0.0, end}
        for q in s.procs.values():
            pts |= {t for t, _ in q.rss_log} | {q.spawned_at} | ({q.ended_at} if q.ended_at is not None else set())
        pts = sorted(t for t in pts if t <= end)
        over = None
        for a, b in zip(pts, pts[1:]):
            m = (a + b) / 2
            ws = [q for q in s.procs.values() if q.parent is not None and q.spawned_at <= m and (q.ended_at is None or q.ended_at > m)]
            tot = rss_range(w.main, m, m)[0] + sum(rss_range(q, m, m)[0] for q in ws)
            if tot > limit and ws:
                over = a if over is None else over
            else:
                over = None
            if over is None:
                continue
            hit = [t for t, _ in kills if over <= t <= b]
            if hit:
                over = hit[-1]
            need = 1.0 + w.main.stalled_since(over - 1) + 2 * s.max_stall * bool(s.p_stall)
            if b - over > need and self.waiting(over, b) > need:
                w.violate("not_stopped", f"{tot:.0f} MB in use with a limit of {limit} MB from {over:.3f}s to {b:.3f}s, but no worker was stopped")
                return

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"the search does not end: {kind} {msg}")


CHECK = C13()
