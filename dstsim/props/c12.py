"""C12: a seeded single-job search is reproducible regardless of timing."""
from ..lib import (Check, Events, ens_models, base_cfg, behaviours, cheapen, fit, gama_params, make_gama, make_post, make_search, share, short,
                   tune)
from .c08 import sig_of_pipeline

KINDS = ["raise", "memerr", "fail_score", "fail_late"]


def chosen(p, g):
    m = g.model
    if m is None:
        return None
    if p["post"] == "best":
        return sig_of_pipeline(m)
    return sorted([e.individual.pipeline_str(), int(wt)] for e, wt in (ens_models(m) or {}).values())


class C12(Check):
    id = "C12"
    quick_runs = 260
    thorough_runs = 15000
    nontrivial = "both searches evaluated at least ten pipelines"
    assumptions = ["no evaluation reaches its time limit, no worker is lost", "one search is constructed and fitted after the other"]
    cross = 48  # runs repeated in another interpreter

    def gen(self, rng, i, tier):
        cheap = rng.random() < 0.5
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.6), stub_uses_random=rng.random() < 0.5)
        p = gama_params(rng, n_jobs=1, random_state=rng.choice([0, 0, 1, 42, rng.randint(0, 2**31)]), max_eval_time=None, cheap=cheap,
                        max_total_time=rng.choice([30, 60]), population_size=rng.choice([None, 3, 5, 10]))
        if cheap:
            p["post"] = "best"
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, 8, 25, 25, 60, 60]) if cheap else rng.choice([None, 8, 25])
        tune(rng, cfg, p, (60, 200) if cheap else (12, 40))
        lim = 0.1 * p["max_total_time"] / 5 / 2.5
        cfg["dur"] = [min(cfg["dur"][0], lim / 2), min(cfg["dur"][1], lim)]
        p["second"] = dict(base_cfg(rng, p_stall=0.0), timing_seed=rng.randint(0, 10**6))
        p["second"] = {k: p["second"][k] for k in ("jitter", "timer_latency", "feeder_latency", "spawn_latency", "p_spurious_empty",
                                                   "timing_seed", "p_lines")}
        p["between"] = rng.choice([0, 0, 3])  # draws from the global generators between the two
        cfg["p_stall"] = 0.0
        return dict(cfg=cfg, params=p, faults=[])

    def one(self, w, p, X, y, out):
        search = make_search(p)
        g = make_gama(w, p, search=search, out=out)
        ev = Events(w, g)
        exc = fit(w, g, X, y)
        return dict(seq=[[r["pipe"], list(r["score"]), r["error"]] for r in ev], exc=short(exc) if exc else None,
                    chosen=chosen(p, g) if exc is None else None)

    def run(self, w):
        p, s = w.params, w.sim
        if p["cheap"]:
            cheapen(w)
        X, y = w.data(kind=p["task"])
        a = self.one(w, p, X, y, "out1")
        q = p["second"]
        s.cfg.update(q)
        w.cfg.update(q)
        s.jitter = q["jitter"]
        import random
        import numpy as np
        for _ in range(p["between"]):
            random.random(), np.random.rand()
        s.sleep(0.1)
        b = self.one(w, p, X, y, "out2")
        msg = self.compare(a, b, w.params)
        if msg:
            w.violate("differs", msg)
        w.nontrivial = min(len(a["seq"]), len(b["seq"])) >= 10
        w.probes["compared"] = min(len(a["seq"]), len(b["seq"]))
        w.probes["selections"] = int(a["chosen"] is not None and len(a["seq"]) == len(b["seq"]) == p.get("max_n_evaluations"))
        w.result = dict(a, p={k: p.get(k) for k in ("max_n_evaluations", "search", "post")})

    def compare(self, a, b, p=None):
        p = p or a["p"]
        n = min(len(a["seq"]), len(b["seq"]))
        for k in range(n):
            if any("TimeoutException" in (x["seq"][k][2] or "") for x in (a, b)):
                return None  # cut off at the deadline: the end of the common part
            if a["seq"][k] != b["seq"][k]:
                return f"evaluation {k + 1} ({p['search']}): {a['seq'][k]} in one search, {b['seq'][k]} in the other"
        cap = p.get("max_n_evaluations")
        if cap and len(a["seq"]) == len(b["seq"]) == cap:
            if a["chosen"] != b["chosen"]:
                return f"after the same {cap} evaluations one search selected {a['chosen']}, the other {b['chosen']}"
        return None

    def post(self, results):
        """Repeat some runs in an interpreter with another hash seed."""
        from .. import campaign
        import json
        some = [(c, r) for t, c, r in sorted(results, key=lambda x: str(x[0])) if not r["gap"] and r.get("result")][:self.cross]
        if not some:
            return []
        other = campaign.elsewhere(self, [c for c, _ in some], 4321)
        out = []
        for (c, r), o in zip(some, other):
            if o["gap"] or not o["result"]:
                continue
            msg = self.compare(json.loads(json.dumps(r["result"], default=str)), o["result"])
            if msg:
                out.append(("hashseed", "with another PYTHONHASHSEED: " + msg, {**c, "cross": 4321}))
        return out

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C12()
