"""C05: every completed evaluation reaches every subscriber exactly once."""
import collections
import csv
import os

from ..lib import Check, Watch, base_cfg, behaviours, fit, gama_params, library_of, make_gama, share, short, tune, warm
from .. import seams

KINDS = ["raise", "raise_text", "memerr", "fail_score", "fail_late", "slow", "hang_py"]
RAISES = {"value": ValueError, "stopiter": StopIteration, "attr": AttributeError, "memory": MemoryError, "os": OSError,
          "assert": AssertionError, "key": KeyError}


class C05(Check):
    id = "C05"
    quick_runs = 500
    thorough_runs = 25000
    nontrivial = "at least three evaluations were delivered to at least one user callback"
    assumptions = ["callbacks raise only from their own code", "no worker is killed"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.6))
        p = gama_params(rng, max_total_time=rng.choice([10, 15, 20]))
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, None, 1, 9, 25])
        p["warm"] = rng.choice([None, None, 3, 8])
        subs = []
        for _ in range(rng.randint(1, 5)):
            subs.append(dict(mode=rng.choice(["ok", "ok", "raise", "raise", "some", "slow"]), exc=rng.choice(list(RAISES)),
                             every=rng.choice([1, 2, 3]), dt=rng.choice([0.01, 0.2, 1.0])))
        if rng.random() < 0.25:
            rng.choice(subs).update(mode="kbd", every=rng.randint(1, 15))
        p["subs"] = subs
        tune(rng, cfg, p, (8, 60))
        faults = []
        if rng.random() < 0.2 and not any(s["mode"] == "kbd" for s in subs):
            faults.append(dict(kind="sigint", t=rng.uniform(0.2, p["max_total_time"]), lines=rng.choice([0, 0, rng.randint(1, 200)])))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data()
        g = make_gama(w, p)
        seen = []
        state = {}

        def sub(k, spec):
            n = [0]

            def cb(e):
                n[0] += 1
                seen.append((k, str(e.individual._id), tuple(e.score), s.now))
                m = spec["mode"]
                if m == "slow":
                    s.compute(spec["dt"])
                elif m == "raise" or (m == "some" and n[0] % spec["every"] == 0):
                    s.fire("callback_raised")
                    raise RAISES[spec["exc"]]("callback")
                elif m == "kbd" and n[0] == spec["every"]:
                    s.fire("callback_interrupt")
                    state["kbd"] = s.now
                    raise KeyboardInterrupt
                return "ignored"
            return cb

        for k, spec in enumerate(p["subs"]):
            g.evaluation_completed(sub(k, spec))
        watch = Watch(w)
        t0 = s.now
        lo, hi = share(p)
        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
        took = w.fit_time
        dones = [d for d in watch.dones() if d["fut"].result is not None]
        K = len(p["subs"])
        full = [(k, str(d["fut"].result.individual._id)) for d in dones for k in range(K)]
        got = [(k, i) for k, i, _, _ in seen]
        if got != full[:len(got)]:
            j = next(j for j in range(len(got)) if j >= len(full) or got[j] != full[j])
            w.violate("order", f"delivery {j} was (subscriber {got[j][0]}, {got[j][1]}), expected "
                               f"{full[j] if j < len(full) else 'none'}; {len(dones)} evaluations, {K} subscribers")
        elif len(full) - len(got) > K:
            w.violate("lost", f"{len(dones)} evaluations were received by the search, but only {len(got)} of {len(full)} deliveries "
                              f"were made to {K} subscribers")
        interrupted = "kbd" in state or any(f["kind"] == "sigint" for f in w.faults)
        cap = p.get("max_n_evaluations")
        if cap is not None and len(dones) == cap and len(got) < len(full) and not interrupted and took < lo:
            w.violate("lost", f"the search ended by its evaluation cap but only {len(got)} of {len(full)} deliveries were made")
        if "kbd" in state:
            after = [x for x in seen if x[3] > state["kbd"]]
            if after:
                w.violate("after_interrupt", f"{len(after)} deliveries after a callback raised KeyboardInterrupt")
            limit = state["kbd"] - t0 + 15 + w.cfg.get("final_fit_time", 0.5) + w.main.stalled_since(state["kbd"])
            if took > limit:
                w.violate("interrupt_ignored", f"KeyboardInterrupt in a callback at {state['kbd'] - t0:.1f}s, fit returned at {took:.1f}s")
        elif took < lo and not interrupted and not (cap is not None and len(dones) >= cap):
            w.violate("search_stopped", f"the search ended after {took:.2f}s of {hi:.1f}s ({short(exc) if exc else 'returned'}), "
                                        f"{len(dones)} evaluations, callbacks {[x['mode'] for x in p['subs']]}")
        # built-in bookkeeping
        want = collections.Counter(str(d["fut"].result.individual._id) for d in dones)
        lib = collections.Counter(str(e.individual._id) for e in library_of(g).evaluations)
        path = os.path.join(g.output_directory, "evaluations.log")
        with seams.R["open"](path, newline="") as fh:
            rows = list(csv.reader(fh, delimiter=";"))
        logged = collections.Counter(r[rows[0].index("id")] for r in rows[1:])
        last = str(dones[-1]["fut"].result.individual._id) if dones else None
        for name, have in (("library", lib), ("log", logged)):
            missing, extra = want - have, have - want
            if missing and not (sum(missing.values()) == 1 and last in missing):
                w.violate("bookkeeping", f"the {name} misses {sum(missing.values())} of {len(dones)} evaluations: {dict(missing)}")
            if extra:
                w.violate("bookkeeping", f"the {name} lists {sum(extra.values())} evaluations that were not received: {dict(extra)}")
        w.nontrivial = len(seen) >= 3
        w.probes["deliveries"] = len(seen)
        w.probes["evaluations"] = len(dones)

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C05()
