"""C09: evolutionary search keeps a valid, bounded population and its evaluation cap."""
from ..lib import (Check, Watch, base_cfg, behaviours, fit, gama_params, make_gama, make_search, share, short, tune, warm)

KINDS = ["raise", "memerr", "fail_score", "fail_late", "hang_py", "slow"]


def removable(victim, others):
    """No other member is worse than the victim in every objective."""
    return not any(all(o < v for o, v in zip(x, victim)) for x in others)


class C09(Check):
    id = "C09"
    quick_runs = 600
    thorough_runs = 25000
    nontrivial = "at least three evaluations were announced"
    assumptions = ["no worker is lost", "at the instant a timeout or interrupt strikes, the evaluation being processed may or may not be part of the population"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.8))
        p = gama_params(rng, search="ea", max_total_time=rng.choice([10, 15, 20]), post="best",
                        population_size=rng.choice([None, 1, 2, 3, 4, 6, 10]))
        p["max_n_evaluations"] = rng.choice([None, None, 1, 2, 10, 30])
        p["warm"] = rng.choice([None, 1, 2, 4, 8])
        p["restart"] = sorted(rng.sample(range(1, 30), rng.randint(1, 3))) if rng.random() < 0.45 else None
        tune(rng, cfg, p, (8, 70))
        faults = []
        if rng.random() < 0.2:
            faults.append(dict(kind="sigint", t=rng.uniform(0.2, p["max_total_time"]), lines=rng.choice([0, rng.randint(1, 200)])))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data(kind=p["task"])
        calls, restarts = [0], []
        watch = Watch(w)

        def restart():
            calls[0] += 1
            if calls[0] in p["restart"]:
                s.fire("restart")
                restarts.append((len(events), len(watch.log)))
                return True
            return False

        search = make_search({**p, "_restart": restart if p["restart"] else None})
        g = make_gama(w, p, search=search)
        size = p["population_size"] or 50
        events = []  # (id, values, ok, population seen before it was processed)

        def seen(e):
            pop = [str(i._id) for i in search.output]
            events.append((str(e.individual._id), tuple(e.score), e.error is None, pop))

        g.evaluation_completed(seen)
        t0 = s.now
        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
        took = w.fit_time
        lo, hi = share(p)
        cap = p["max_n_evaluations"]
        dones = watch.dones()
        interrupted = bool(w.faults)
        # --- evaluation cap
        if cap is not None:
            if len(dones) > cap:
                w.violate("cap", f"{len(dones)} evaluations completed with max_n_evaluations={cap}")
            elif len(dones) == cap:
                late = t0 + took - dones[-1]["t"]
                if late > 15 + w.cfg.get("final_fit_time", 0.5) + w.main.stalled_since(dones[-1]["t"]) and took > lo:
                    w.violate("cap", f"the search went on for {late:.1f}s after evaluation {cap} of {cap}")
        if took < lo and not interrupted and (cap is None or len(dones) < cap):
            w.violate("search_stopped", f"the search ended after {took:.2f}s of {hi:.1f}s and {len(dones)} evaluations, cap {cap} "
                                        f"({short(exc) if exc else 'returned'})")
        # --- population after each processed evaluation
        values = {i: v for i, v, _, _ in events}
        after_restart = {n for n, _ in restarts}  # restarted after processing that many events
        for k, (_, _, _, pop) in enumerate(events):
            if len(pop) > size:
                w.violate("too_large", f"population of {len(pop)} (limit {size}) at evaluation {k + 1}")
                return
            if len(set(pop)) != len(pop):
                w.violate("duplicate", f"an individual is in the population twice at evaluation {k + 1}")
                return
            prev = events[k - 1] if k else None
            before = prev[3] if k else []
            if not k:
                allowed = pop == []
            else:
                allowed = self.transition(before, prev, pop, size, values, k in after_restart)
            if not allowed:
                w.violate("population", self.describe(before, prev, pop, size, values, k, k in after_restart))
                return
        final = [str(i._id) for i in search.output]
        if events:
            k = len(events)
            before, prev = events[-1][3], events[-1]
            ok = self.transition(before, prev, final, size, values, k in after_restart)
            cut = set(final) == set(before) or (prev[2] and sorted(final) == sorted(before + [prev[0]]))
            ended_by_cap = cap is not None and len(dones) >= cap and took < lo and not interrupted
            if not ok and (ended_by_cap or not cut):
                w.violate("population", "after fit: " + self.describe(before, prev, final, size, values, k, k in after_restart))
            if len(final) > size + (0 if ended_by_cap else 1) or len(set(final)) != len(final):
                w.violate("too_large", f"{len(final)} individuals returned, limit {size}")
        # --- restarts
        subs = [(j, r) for j, r in enumerate(watch.log) if r["op"] == "submit"]
        for n, pos in restarts:
            if cap is not None and n >= cap:
                continue
            nxt = [r for j, r in subs if j >= pos]
            old = {r["iid"] for j, r in subs if j < pos}
            first = nxt[:size]
            ended = t0 + took if exc is None else s.now
            if len(first) < size and first and not interrupted and took < lo and (cap is None or n < cap):
                w.violate("restart", f"only {len(first)} of {size} new candidates were submitted after a restart")
            for r in first:
                if r["iid"] in old or r["ind"].meta.get("parents") or r["ind"].meta.get("origin") != "new":
                    w.violate("restart", f"after a restart {r['iid']} was submitted, which is not a new random candidate: {r['ind'].meta}")
                    return
            more = [r for r in nxt[size:] ]
            w.probes["restarts"] = w.probes.get("restarts", 0) + 1
        w.nontrivial = len(events) >= 3
        w.probes["evaluations"] = len(events)

    @staticmethod
    def transition(before, ev, pop, size, values, restarted):
        i, v, ok, _ = ev
        if restarted:
            return pop == []
        if not ok:
            return sorted(pop) == sorted(before)
        full = before + [i]
        if len(full) <= size:
            return sorted(pop) == sorted(full)
        gone = [x for x in full if x not in pop]
        if len(gone) != 1 or len(pop) != len(full) - 1 or not set(pop) <= set(full):
            return False
        return removable(values[gone[0]], [values[x] for x in full if x != gone[0]])

    @staticmethod
    def describe(before, ev, pop, size, values, k, restarted):
        sh = lambda l: [f"{x[:6]}{values.get(x)}" for x in l][:12]
        return (f"evaluation {k}: population {sh(before)} (limit {size}), then {'success' if ev and ev[2] else 'failure'} of "
                f"{sh([ev[0]]) if ev else None}, restart={restarted}: population is {sh(pop)}")

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C09()
