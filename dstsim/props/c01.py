"""C01: fit respects its time budget."""
from ..lib import (aims, ALL_KINDS, RESERVED, Check, Events, Watch, base_cfg, behaviours, fit, gama_params, make_gama,
                   short, tune, warm)

ALLOWANCE = 15.0
EATS = ("swallow", "convert")


class C01(Check):
    id = "C01"
    quick_runs = 650
    thorough_runs = 12000
    nontrivial = "at least one evaluation was announced before the budget ended"
    assumptions = ["training the final model takes the scripted time", "no worker is killed while it sends a result larger than the pipe (C14, known finding)", "user callbacks that swallow the stop signal are "
                   "combined neither with evaluations that never end nor with a clock that is set back"]

    def gen(self, rng, i, tier):
        cb = rng.choice([None, None, None, "raise", "slow", "swallow", "swallow", "convert", "slow_native"])
        kinds = list(ALL_KINDS)
        if cb in EATS:
            kinds = [k for k in kinds if k not in ("hang_native", "slow_native", "swallow")]
        cfg = base_cfg(rng, behaviours=behaviours(rng, kinds, 0.6), final_fit_time=rng.choice([0.1, 2.0]))
        aims(rng, cfg, 0.3)
        cfg["recv_time"] = rng.choice([0.0, 0.0, 0.05, 0.4])
        p = gama_params(rng, max_total_time=rng.choice([10, 13, 20, 30]), cb=cb, cb_time=rng.choice([0.2, 1.0, 6.0]),
                        time_fraction=rng.choice([None, None, 0.05, 0.5]))
        if rng.random() < 0.1:
            p["post"] = "none"
        tune(rng, cfg, p)
        p["warm"] = rng.choice([None, None, 4, 8])
        if rng.random() < 0.12:
            p["max_eval_time"] = rng.choice([1, 2]) * p["max_total_time"]
        faults = []
        T = p["max_total_time"]
        if rng.random() < 0.3:
            d = rng.choice([3600.0, 5.0, -3600.0, -5.0, 0.5])
            if not (cb in EATS and d < 0):
                faults.append(dict(kind="clock_jump", t=rng.uniform(0.1, T), delta=d))
        if rng.random() < 0.2:
            faults.append(dict(kind="stall_worker", t=rng.uniform(0.1, T), idx=rng.randint(0, 3), dt=rng.uniform(1, 60)))
        if rng.random() < 0.15:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.1, T), idx=rng.randint(0, 3)))
            if cb not in EATS and rng.random() < 0.5:  # it takes the lock of a queue with it
                faults[-1].update(holding=True, q=rng.randint(0, 1), t=rng.choice([0.05, faults[-1]["t"]]))
        p["prep"] = 0.0
        if rng.random() < 0.15:
            p["prep"] = rng.choice([0.15, 0.4, 0.6]) * T
            faults = [f for f in faults if f["kind"] != "clock_jump"]
        p["delay"] = rng.choice([0.0, 0.0, 0.0, 8.0, 60.0])  # between construction and fit
        for f in faults:
            f["t"] += p["delay"]
        p["fits"] = 2 if rng.random() < 0.12 else 1
        if rng.random() < 0.08:  # memory is short from the start: workers are stopped all the time, nothing completes
            cfg.update(main_rss=2000.0, worker_rss=100.0)
            p.update(max_memory_mb=rng.choice([1000, 2050]), cb=None)
            aims(rng, cfg, 1.0)
            cfg["aim"].update(kinds=rng.choice([["write"], ["clock"], ["clock"]]), lines=rng.choice([1, 5, 20, 60]))
        return dict(cfg=cfg, params=p, faults=faults)

    @staticmethod
    def slow_encoding(w, seconds):
        """Preprocessing the data takes so long."""
        import category_encoders as ce

        left = [seconds]
        inner = ce.OrdinalEncoder.fit

        def fit(enc, *a, **k):
            if left and w.sim.me() is w.main:
                w.sim.compute(left.pop())
                w.sim.fire("slow_preprocessing")
            return inner(enc, *a, **k)
        ce.OrdinalEncoder.fit = fit

    def callback(self, w, p, state):
        import time

        def raise_(e):
            raise RuntimeError("callback failed")

        def slow(e):
            w.sim.compute(p["cb_time"])

        def slow_native(e):
            time.sleep(p["cb_time"])

        def swallow(e):
            try:
                w.sim.compute(p["cb_time"])
            except Exception:
                w.sim.fire("timeout_swallowed")
                state["swallowed"] = w.sim.now

        def convert(e):
            try:
                w.sim.compute(p["cb_time"])
            except Exception as x:
                w.sim.fire("timeout_converted")
                raise RuntimeError("callback failed") from x

        return dict(raise_=raise_, slow=slow, slow_native=slow_native, swallow=swallow, convert=convert)[
            "raise_" if p["cb"] == "raise" else p["cb"]]

    def run(self, w):
        p = w.params
        s = w.sim
        X, y = w.data()
        state = {}
        g = make_gama(w, p)
        if p["cb"]:
            g.evaluation_completed(self.callback(w, p, state))
        ev = Events(w, g)
        watch = Watch(w)
        tf = p["time_fraction"]
        if tf is None:
            tf = RESERVED[p["post"]]
        T = p["max_total_time"]
        P = p["prep"]
        share_lo, share_hi = P + (1 - tf) * (T - P) - 1.2, P + (1 - tf) * (T - P)
        if P:  # some runs of it are stalled while they compute
            share_lo -= 0.2 * P + 4 * s.max_stall * bool(s.p_stall)
        if p["delay"]:
            s.compute(p["delay"])
        for k in range(p.get("fits", 1)):
            if k:
                s.compute(p["delay"] + 1)
            if P:
                self.slow_encoding(w, P)
            self.one(w, p, g, X, y, share_lo, share_hi, watch, ev)
            if w.violations:
                return
        w.nontrivial = len(ev) > 0
        w.probes["evaluations"] = len(ev)

    def one(self, w, p, g, X, y, share_lo, share_hi, watch, ev):
        s, T, P = w.sim, p["max_total_time"], p["prep"]
        w.bound_t0 = s.now
        bound = share_hi + ALLOWANCE + w.cfg.get("final_fit_time", 0.5) + p["max_total_time"] * 0.0
        if p["cb"] in ("slow", "slow_native"):
            bound += p["cb_time"]
        if p["cb"] in EATS:
            bound += 3.5 + 2 * p["cb_time"] + 2.0
        s.max_sim_time = s.now + bound + 400
        w.limit = bound
        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
        took = w.fit_time
        bound += w.main.aim_delay
        bound += w.main.stalled_since(w.bound_t0 + share_lo) if not P else w.main.stalled_since(w.bound_t0)
        if p["cb"] in EATS:  # the next completed evaluation may itself be delayed by stalled workers
            bound += max([q.stalled_since(w.bound_t0 + share_lo) for q in s.procs.values()] + [0]) + \
                sum(f["dt"] for f in w.faults if f["kind"] == "stall_worker")
        if took > bound:
            w.violate("late", f"budget {T}s, search share {share_hi:.1f}s, but fit took {took:.2f}s (bound {bound:.2f}s, "
                              f"outcome {short(exc) if exc else 'returned'})")
        slack = 2.0 + bound - share_hi - ALLOWANCE - w.cfg.get("final_fit_time", 0.5)
        late = [r["t"] - w.bound_t0 for r in watch.submits() if r["t"] - w.bound_t0 > share_hi + slack]
        if late:
            w.violate("search", f"budget {T}s, search share {share_hi:.1f}s, but {len(late)} evaluations were submitted "
                                f"after it, the last at {max(late):.2f}s")
        forward = any(f["kind"] == "clock_jump" and f["delta"] > 0 for f in w.faults)
        if took < share_lo and not forward:
            w.violate("early", f"budget {T}s, search share {share_hi:.1f}s, but fit ended after {took:.2f}s "
                               f"(outcome {short(exc) if exc else 'returned'})")
        w.probes["fit_raised"] = int(exc is not None)

    def stuck(self, w, kind, msg):
        w.violate("late", f"fit does not end: {kind} {msg} (bound {getattr(w, 'limit', 0):.1f}s)")


CHECK = C01()
