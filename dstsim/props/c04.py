"""C04: failing and overrunning pipelines are contained and reported as failed."""
from ..lib import (Check, Events, Watch, base_cfg, behaviours, eval_limit, fit, gama_params, job_of, jobs, make_gama, n_metrics, share,
                   short, stall_sum, succeeded, tune, window)

KINDS = ["raise", "raise_text", "memerr", "hang_py", "slow", "fail_score", "fail_late", "slow_late", "slow_native"]
NINF = float("-inf")


class C04(Check):
    id = "C04"
    quick_runs = 450
    thorough_runs = 25000
    nontrivial = "at least one evaluation failed or overran and at least one other completed"
    assumptions = ["pipelines do not swallow the stop signal", "no worker is killed (C14) and the clock does not jump (C01)"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.9, 4), p_always=rng.choice([0.0, 0.5, 1.0]),
                       predict_time=rng.choice([0.0, 0.0, 0.02]),
                       p_transformer_fail=rng.choice([0.0, 0.0, 0.2]), native_dur=rng.choice([1.0, 4.0]),
                       p_refuse=rng.choice([0.0, 0.0, 0.0, 0.15]))
        p = gama_params(rng, max_total_time=rng.choice([15, 20, 30, 60]), max_eval_time=rng.choice([None, 1, 1, 2, 3]))
        if p["search"] == "asha" and rng.random() < 0.06:
            p["max_total_time"] = 800
        tune(rng, cfg, p, (15, 60))
        if p["search"] != "asha":
            cfg["dur"][1] = min(cfg["dur"][1], 0.3)
            cfg["dur"][0] = min(cfg["dur"])
        return dict(cfg=cfg, params=p, faults=[])

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data()
        g = make_gama(w, p)
        ev = Events(w, g)
        snaps = []

        watch = Watch(w)
        watch.on_done = lambda rec: snaps.append(self.snap(w, p, rec))
        t0 = s.now
        exc = fit(w, g, X, y)
        took = w.fit_time
        lo, hi = share(p)
        bad = [(t, d) for t, k, d in s.history if k == "stub_bad"]
        nbad = 0
        self.js = jobs(w)
        for n in snaps:
            if n is not None:
                nbad += self.judge(w, p, n, bad, t0 + lo)
        self.cut_off(w, p, snaps, bad, t0 + lo)
        if took < lo:
            w.violate("search_stopped", f"the search ended after {took:.2f}s of {hi:.1f}s ({short(exc) if exc else 'returned'})")
        ok = [n for n in snaps if n and n["success"]]
        if exc is not None and ok and not (p["search"] == "asha" and p["post"] == "ens"):
            # the last evaluation may have been cut off before it was announced
            if sum(e["error"] is None for e in ev) > 0 and len(ok) > 1:
                w.violate("fit_failed", f"fit raised {short(exc)} although {len(ok)} evaluations succeeded")
        w.nontrivial = nbad > 0 and len(snaps) > nbad
        w.probes["evaluations"] = len(snaps)
        w.probes["failed"] = nbad

    def snap(self, w, p, rec):
        fut = rec["fut"]
        r = fut.result
        if r is None and type(fut.exception).__name__ == "RefusedError":
            w.probes["refused"] = w.probes.get("refused", 0) + 1
            return None  # there was no pipeline to evaluate yet; the search has to go on
        if r is None:
            w.violate("no_evaluation", f"an evaluation came back without a record: exception {fut.exception!r}\n{fut.traceback}")
            return None
        a, b = window(r)
        return dict(t=rec["t"], t0=a, t1=b, pid=r.pid, score=tuple(r.score), error=r.error, est=r.estimators,
                    pred=r.predictions, length=len(r.individual.primitives), fitness=tuple(r.individual.fitness.values),
                    success=succeeded(r.score), pipe=r.individual.pipeline_str())

    def judge(self, w, p, n, bad, deadline):
        m = n_metrics(p)
        j = job_of(self.js, n["pid"], n["t0"])
        if j is None:
            w.violate("unknown", f"no worker was working on an evaluation with pid {n['pid']} at {n['t0']:.3f}s: {n['pipe']}")
            return 0
        n["job"] = j
        mine = [d for t, d in bad if d["pid"] == n["pid"] and j[0] - 1e-5 <= t <= j[1] + 1e-5]
        raised = [d for d in mine if d["text"] is not None]
        hung = [d for d in mine if d["text"] is None]
        lim = eval_limit(p)
        slack = 0.1 + w.sim.cfg.get("timer_latency", 0.0) + stall_sum(w, n["t0"], n["t1"])
        dur = n["t1"] - n["t0"]
        who = f"evaluation of {n['pipe']} (pid {n['pid']}, {n['t0']:.3f}..{n['t1']:.3f}, score {n['score']}, error {n['error']!r:.200})"
        want = m + (1 if p["regularize_length"] else 0)
        if len(n["score"]) != want or (p["regularize_length"] and n["score"][-1] != -n["length"]):
            w.violate("score_shape", f"{who}: expected {m} metric(s){' and the length' if want > m else ''}")
            return 1
        if n["fitness"] != n["score"]:
            w.violate("fitness", f"{who}: fitness of the individual is {n['fitness']}")
        failed = any(v == NINF for v in n["score"])
        not_full = p["search"] == "asha" and not failed and n["error"] is not None
        if failed:
            if any(v != NINF for v in n["score"][:m]):
                w.violate("score", f"{who}: only part of the metrics show the failure")
            if n["error"] is None:
                w.violate("error_lost", f"{who}: failing score but no error")
            if n["est"] or n["pred"] is not None:
                w.violate("leftover", f"{who}: failed, but carries models or predictions")
            if raised:
                d = raised[0]
                cls = dict(memerr="MemoryError", transformer="RuntimeError").get(d["bad"], d.get("cls") or "ValueError")
                if n["error"] is not None and not (cls in n["error"] and d["text"] in n["error"]):
                    if "Timeout" not in n["error"]:
                        w.violate("wrong_error", f"{who}: expected {cls} {d['text']!r:.100}")
            elif n["error"] is not None:
                timed_out = (lim is not None and dur >= lim - 0.05) or (lim is None and dur >= 10) or n["t1"] >= deadline - 0.3
                if not timed_out:
                    w.violate("unexplained", f"{who}: nothing failed in it and its limit of {lim}s was not reached")
            if hung and not raised and n["error"] is not None and "Timeout" not in n["error"]:
                w.violate("wrong_error", f"{who}: expected a timeout")
        else:
            if n["error"] is not None and not not_full:
                w.violate("score", f"{who}: error without a failing score")
            if mine:
                w.violate("passed", f"{who}: {mine[0]['bad']} ({mine[0]['text']!r:.80}) happened in it, but it counts as successful")
            if dur > (lim if lim is not None else 610) + slack:
                w.violate("overrun", f"{who}: took {dur:.2f}s with a limit of {lim}s and counts as successful")
        if any(d["bad"] in ("hang_py", "slow_late") for d in mine):
            nat = w.cfg.get("native_dur", 8.0) * 1.3 + 0.5
            if dur > (lim if lim is not None else 610) + slack + nat:
                w.violate("not_cut", f"{who}: ran for {dur:.2f}s with a limit of {lim}s")
        return int(failed)

    def cut_off(self, w, p, snaps, bad, deadline):
        """Whatever hangs in interruptible code comes back as an evaluation soon after its limit."""
        lim = eval_limit(p)
        lim = 610 if lim is None else lim
        cuts = [(t, d["pid"]) for t, k, d in w.sim.history if k == "stub_cut"]
        hi = deadline + 1.2
        for t, d in bad:
            if d["bad"] in ("hang_py", "slow_late"):
                j = job_of(self.js, d["pid"], t)
                due = min((j[0] if j else t) + lim, hi)
                due = max(due, t) + 1.0 + w.sim.cfg.get("timer_latency", 0) + stall_sum(w, t)
                end = w.sim.procs[d["pid"]].ended_at
                if (end is None or end > due) and w.sim.now > due and not any(q == d["pid"] and t <= c <= due for c, q in cuts):
                    w.violate("not_cut", f"worker {d['pid']}: {d['bad']} in {d['key']} since {t:.2f}s was not cut off by {due:.2f}s "
                                         f"(limit {lim}s, search until {hi:.1f}s)")
                    return
        for t, d in bad:
            due = t + lim + 2.0 + w.sim.cfg.get("timer_latency", 0) + stall_sum(w, t) + 0.5
            if due < deadline - 0.5:
                if not any(n and n["pid"] == d["pid"] and "job" in n and n["job"][0] - 1e-5 <= t <= n["job"][1] + 1e-5 for n in snaps):
                    w.violate("swallowed", f"worker {d['pid']}: {d['bad']} in {d['key']} at {t:.2f}s was never reported "
                                           f"(limit {lim}s, search until {deadline:.1f}s)")
                    return

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C04()
