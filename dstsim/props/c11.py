"""C11: only pipelines from the search space and within the length limit are evaluated."""
from ..lib import (Check, Events, Watch, base_cfg, behaviours, cheapen, fit, gama_params, make_gama, share, short, succeeded, tb,
                   tune, warm)
from .. import stubs
from .c08 import watch_search

KINDS = ["raise", "memerr", "fail_score", "hang_py", "slow"]
SPACES = ["clf", "clf", "clf_nodata", "clf_plain", "clf_small", "clf_mixed", "clf_one", "clf_terminal"]


def invalid(sp, pipe, limit):
    """Why a compiled pipeline is not one of the search space (None if it is)."""
    steps = [e for _, e in pipe.steps if type(e).__module__ == stubs.__name__]
    if not steps:
        return "no step of the search space"
    if limit is not None and len(steps) > limit:
        return f"{len(steps)} steps, at most {limit} allowed"
    if steps[-1] is not pipe.steps[-1][1]:
        return "the last step is not from the search space"
    for k, e in enumerate(steps):
        cls = type(e)
        if cls not in sp:
            return f"{cls.__name__} is not in the search space"
        is_tr = issubclass(cls, stubs._Tr)
        if is_tr == (k == len(steps) - 1):
            return f"{cls.__name__} at position {k + 1} of {len(steps)}"
        given = e.get_params(deep=False)
        for name, values in sp[cls].items():
            vals = sp[name] if values == [] else values
            if not any(v == given[name] and type(v) is type(given[name]) for v in vals):
                return f"{cls.__name__}.{name}={given[name]!r} is not one of {vals}"
    return None


class C11(Check):
    id = "C11"
    quick_runs = 500
    thorough_runs = 20000
    nontrivial = "at least one offspring of evaluated candidates was submitted"
    assumptions = ["start candidates given by the user obey the limits", "the space holds more than one pipeline"]

    def gen(self, rng, i, tier):
        cheap = rng.random() < 0.8
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, rng.choice([0.2, 0.6, 0.95])))
        task = rng.choice(["clf", "clf", "clf", "reg"])
        space = "reg" if task == "reg" else rng.choice(SPACES)
        p = gama_params(rng, task=task, space=space, search=rng.choice(["ea", "ea", "ea", "rs", "asha"]), post="best",
                        max_total_time=rng.choice([10, 20]), regularize_length=rng.random() < 0.6, cheap=cheap,
                        max_pipeline_length=rng.choice([None, None, 1, 2, 3, 5]),
                        population_size=rng.choice([None, 1, 2, 3, 4, 8]))
        if space in ("clf_nodata", "clf_terminal"):
            p["max_pipeline_length"] = rng.choice([None, 1])
        elif space == "clf_one":
            p["max_pipeline_length"] = rng.choice([None, 2, 3])
        p["warm"] = rng.choice([None, None, 1, 2, 3, 6])
        p["restart"] = rng.random() < 0.2
        tune(rng, cfg, p, (60, 250) if cheap else (10, 50))
        faults = []
        if rng.random() < 0.15:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.5, p["max_total_time"]), idx=0))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        if p["cheap"]:
            cheapen(w)
        X, y = w.data(kind=p["task"])
        sp = stubs.space(p["space"])
        limit = p["max_pipeline_length"]
        if limit is None and not any(issubclass(c, stubs._Tr) for c in sp if isinstance(c, type)):
            limit = 1
        if p["restart"]:
            n = [0]

            def restart():
                n[0] += 1
                return n[0] % 37 == 0
            p = {**p, "_restart": restart}
        from ..lib import make_search
        search = make_search(p)
        st = watch_search(search)
        g = make_gama(w, p, search=search)
        watch = Watch(w)
        nparents = 0
        ev = Events(w, g)

        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
        sent = {r["fid"]: r["pipe"] for r in watch.submits()}
        for rec in watch.dones():
            r = rec["fut"].result
            if r is not None and r.individual.pipeline_str() != sent.get(rec["fid"]):
                w.violate("changed", f"candidate {sent.get(rec['fid'])} is {r.individual.pipeline_str()} after its evaluation")
                return
        # submissions are judged here: the individuals are kept in the log
        for k, rec in enumerate(watch.submits()):
            ind = rec["ind"]
            if ind is None:
                w.violate("no_individual", "something that is no individual was submitted")
                return
            known_pipe = rec["pipe"]
            if ind.pipeline_str() != known_pipe:
                w.violate("changed", f"candidate {rec['iid'][:8]} was submitted as {known_pipe} and is {ind.pipeline_str()} after the search")
                return
            try:
                why = invalid(sp, ind.pipeline, limit)
            except Exception as x:
                why = f"it can not be compiled: {short(x)}"
            if why:
                w.violate("invalid", f"submission {k + 1} ({ind.meta.get('origin')}): {known_pipe}: {why}")
                return
            nparents += bool(ind.meta.get("parents"))
        lo, hi = share(p)
        good = [e for e in ev.items[:-1] if succeeded(e["score"])]
        if w.fit_time < lo:
            w.violate("search_stopped", f"the search ended after {w.fit_time:.2f}s of {hi:.1f}s: "
                                        f"{short(st['exc'] or exc) if st['exc'] or exc else 'returned'}\n{tb(exc) if exc else ''}")
        elif exc is not None and good and not p["restart"]:
            w.violate("fit_failed", f"fit raised {short(exc)} after {len(good)} successful evaluations\n{tb(exc)}")
        w.nontrivial = nparents > 0
        w.probes["submitted"] = len(watch.submits())
        w.probes["offspring"] = nparents

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C11()
