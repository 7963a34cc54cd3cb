"""C07: the evaluation library keeps exactly the best m results usable."""
import os

import numpy as np

from ..lib import Check, Watch, base_cfg, behaviours, fit, gama_params, library_of, make_gama, short, tune
from .. import seams, stubs
from ..world import Violation

KINDS = ["raise", "memerr", "fail_score", "fail_late", "hang_py"]


class Model:
    """Stand-in for a fitted model: knows which evaluation it belongs to."""

    def __init__(self, tag, fold):
        self.tag, self.fold, self.blob = tag, fold, list(range(200))


def files(d):
    return sorted(seams.R["listdir"](d)) if os.path.isdir(d) else None


def sig(est):
    """Recognises fitted stub pipelines."""
    return [(stubs.key_of(e.steps[-1][1]), e.steps[-1][1].train_hash_) for e in est]


class Ref:
    """Reference: what was saved, in order."""

    def __init__(self, w, lib, m, where, cache):
        self.w, self.lib, self.m, self.where, self.cache = w, lib, m, where, cache
        self.saved = []  # (evaluation, tag, score, error, predictions)
        self.maybe = []  # saves that failed: may be absent or without models
        self.sample = None

    def check(self, n, want_n, op):
        self.w.paused = True
        try:
            self.check_(n, want_n, op)
        finally:
            self.w.paused = False

    def check_(self, n, want_n, op):
        """All facts about the library after operation number n."""
        w, lib = self.w, self.lib
        top, other = list(lib.top_evaluations), list(lib.other_evaluations)
        ids = [id(e) for e in top + other]
        bad = lambda kind, msg: w.violate(kind, f"after {op} {n} ({self.where}, m={self.m}): {msg}")
        known = {id(r["e"]): r for r in self.saved}
        maybe = {id(r["e"]): r for r in self.maybe}
        if len(set(ids)) != len(ids):
            return bad("twice", "an evaluation is listed twice")
        missing = [r for i, r in known.items() if i not in set(ids)]
        if missing:
            return bad("missing", f"{len(missing)} of {len(known)} saved evaluations are not listed, e.g. score {missing[0]['score']}")
        if [i for i in ids if i not in known and i not in maybe]:
            return bad("foreign", "an evaluation is listed that was never saved")
        if sorted(id(e) for e in lib.evaluations) != sorted(ids):
            return bad("listing", "`evaluations` is not top plus other evaluations")
        inlib = [r for r in self.saved + self.maybe if id(r["e"]) in set(ids)]
        tops = [r for r in inlib if id(r["e"]) in {id(e) for e in top}]
        rest = [r for r in inlib if id(r["e"]) not in {id(e) for e in top}]
        succ = sorted([r["score"] for r in inlib if r["error"] is None], reverse=True)
        k = len(succ) if self.m is None else min(self.m, len(succ))
        if any(r["error"] is not None for r in tops):
            return bad("failed_on_top", "a failed evaluation is among the top evaluations")
        got = sorted([r["score"] for r in tops], reverse=True)
        if got != succ[:k]:
            return bad("not_best", f"top evaluations have scores {got[:8]}, the best {k} are {succ[:k][:8]}")
        if self.m is not None and len(tops) > self.m:
            return bad("too_many", f"{len(tops)} top evaluations")
        fs = files(self.cache)
        if fs is None or len(fs) != len(tops):
            return bad("cache", f"{len(tops)} top evaluations but cache holds {None if fs is None else len(fs)} files")
        for r in rest:
            e = r["e"]
            if id(e) in known:
                if (e.estimators or e.predictions is not None):
                    return bad("not_discarded", f"an evaluation outside the top still has models or predictions (score {r['score']})")
                if tuple(e.score) != r["score"] or e.error != r["error"]:
                    return bad("changed", f"score/error changed from {r['score']} {r['error']} to {e.score} {e.error}")
        for r in tops:
            e = r["e"]
            if tuple(e.score) != r["score"] or e.error is not None:
                return bad("changed", f"score/error changed from {r['score']} to {e.score} {e.error}")
            self.usable(r, want_n, bad)
            if w.violations:
                return

    def usable(self, r, want_n, bad):
        try:
            est, pred = r["e"].estimators, r["e"].predictions
        except Exception as x:
            return bad("unusable", f"models of a top evaluation (score {r['score']}) cannot be read: {short(x)}")
        if r["tags"] is not None and [(m.tag, m.fold) for m in est] != r["tags"]:
            return bad("models", f"models of a top evaluation are not the ones saved: {[(m.tag, m.fold) for m in est]} != {r['tags']}")
        if r["tags"] is None and sig(est) != r["sig"]:
            return bad("models", f"models of a top evaluation are not the ones saved: {sig(est)} != {r['sig']}")
        orig = r["pred"]
        if orig is None or want_n == 0:
            if pred is not None:
                return bad("predictions", f"predictions should not be kept, but are: {pred[:3]}")
            return
        if pred is None:
            return bad("predictions", f"predictions of a top evaluation (score {r['score']}) are gone")
        want = len(orig) if want_n is None or want_n >= len(orig) else want_n
        if len(pred) != want:
            return bad("predictions", f"{len(pred)} of {len(orig)} predictions kept, expected {want}")
        flat = lambda a: np.asarray(a, dtype=float).reshape(len(a), -1)
        o, g = flat(orig), flat(pred)
        if want == len(orig):
            if not np.array_equal(o, g):
                bad("predictions", "kept predictions differ from those saved")
            return
        if r["rowcol"] is None:
            return
        idx = [int(v) for v in g[:, r["rowcol"]] // 1000]
        if self.sample is None:
            self.sample = idx
            if len(set(idx)) != len(idx):
                return bad("predictions", "a row is sampled twice")
        if idx != self.sample or not np.array_equal(o[idx], g):
            bad("predictions", f"sampled rows {idx[:6]} are not those of the other evaluations {self.sample[:6]}")


class C07(Check):
    id = "C07"
    quick_runs = 1500
    thorough_runs = 60000
    nontrivial = "at least three evaluations were saved"
    assumptions = ["only writes to the cache fail, not removals"]

    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            return self.gen_fit(rng)
        n_ops = rng.choice([3, 8, 20, 40])
        levels = rng.choice([2, 4, 1000])
        single = rng.random() < 0.3
        ops = []
        for t in range(n_ops):
            sc = [round(rng.randrange(levels) / levels, 4)] + ([] if single else [float(-rng.randint(1, 3))])
            ops.append(["save", t, sc, rng.random() < 0.25, rng.random() < 0.9])
            if rng.random() < 0.2:
                ops.append(["best", rng.randint(0, 8), rng.random() < 0.5])
            if rng.random() < 0.03:
                ops.append(["forget"])
        order = rng.choice(["random", "random", "up", "down"])
        if order != "random":
            sc = sorted((o[2] for o in ops if o[0] == "save"), reverse=order == "down")
            for o in ops:
                if o[0] == "save":
                    o[2] = sc.pop(0)
        p = dict(mode="direct", ops=ops, m=rng.choice([None, 0, 1, 2, 3, 5, 10]), n=rng.choice([None, 0, 1, 4, 10, 100]),
                 rows=rng.choice([6, 12]), pred=rng.choice(["flat", "proba", "series"]),
                 sampling=rng.choice(["auto", "auto", "size", "stratify", "given"]))
        faults = []
        if rng.random() < 0.45:
            for _ in range(rng.randint(1, 3)):
                faults.append(dict(kind="io_error", op=rng.choice(["write", "write", "open"]), path="*.pkl",
                                   n=rng.randint(1, 15), count=rng.choice([1, 1, 4]), torn=rng.choice([0.0, 0.5, 0.9])))
        return dict(cfg=dict(), params=p, faults=faults)

    def gen_fit(self, rng):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.6))
        p = gama_params(rng, mode="fit", max_total_time=rng.choice([10, 15]), post=rng.choice(["ens", "ens", "best"]), store="all",
                        max_models=rng.choice([1, 2, 4, 10]), hillclimb_size=rng.choice([5, 10, 10_000]))
        tune(rng, cfg, p, (10, 50))
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.randint(1, 3)):
                faults.append(dict(kind="io_error", op=rng.choice(["write", "write", "open"]), path="*.pkl",
                                   n=rng.randint(1, 25), count=rng.choice([1, 1, 4]), torn=rng.choice([0.0, 0.5, 0.9])))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        return self.direct(w) if w.params["mode"] == "direct" else self.fit(w)

    # ------------------------------------------------------------------ direct
    def direct(self, w):
        from gama.configuration.parser import pset_from_config
        from gama.genetic_programming.components import Individual
        from gama.genetic_programming.operations import create_random_expression
        from gama.utilities.evaluation_library import Evaluation, EvaluationLibrary
        import pandas as pd

        p, s = w.params, w.sim
        pset, _ = pset_from_config(stubs.space("clf"))
        N = p["rows"]
        given = None
        kw = dict(m=p["m"], n=p["n"], cache="cache")
        if p["sampling"] == "given":
            given = np.array([4, 1, 3])
            kw["sample"] = given
        lib = EvaluationLibrary(**kw)
        n = p["n"] if given is None else (0 if p["n"] == 0 else len(given))
        if p["sampling"] == "size":
            lib.determine_sample_indices(prediction_size=N)
        elif p["sampling"] == "stratify" and p["n"] not in (0, 1):
            y = np.array([i % 2 for i in range(N)])
            lib.determine_sample_indices(stratify=y)
        ref = Ref(w, lib, p["m"], f"n={p['n']}, {len(p['ops'])} operations", "cache")
        if given is not None:
            ref.sample = [int(v) for v in given]
        s.order.update(repr(p).encode())  # the operations are the history here
        count = 0
        for j, op in enumerate(p["ops"]):
            if w.violations:
                return
            if op[0] == "save":
                _, tag, score, fails, has_pred = op
                ind = Individual(create_random_expression(pset, 1, 3), to_pipeline=None)
                base = np.arange(N) * 1000.0 + tag
                pred = {"flat": base, "proba": np.stack([base, 1 - base], axis=1), "series": pd.Series(base)}[p["pred"]]
                if not has_pred:
                    pred = None
                e = Evaluation(ind, predictions=None if fails and tag % 2 else pred, score=tuple(score),
                               estimators=None if fails and tag % 2 else [Model(tag, f) for f in range(3)],
                               error="<class 'ValueError'> bad" if fails else None, pid=1)
                r = dict(e=e, tags=[(tag, f) for f in range(3)], score=tuple(score), error=e.error, rowcol=0,
                         pred=None if pred is None else np.asarray(pred))
                before = s.fired.get("write_error", 0) + s.fired.get("open_error", 0) + s.fired.get("torn_write", 0)
                try:
                    lib.save_evaluation(e)
                    ref.saved.append(r)
                    count += 1
                    if lib.lookup.get(str(ind.main_node)) is not e:
                        w.violate("lookup", f"the evaluation saved last is not found by its pipeline (operation {j})")
                except Exception as x:
                    hit = s.fired.get("write_error", 0) + s.fired.get("open_error", 0) + s.fired.get("torn_write", 0) > before
                    if not hit or not isinstance(x, OSError):
                        w.violate("save_failed", f"saving evaluation {tag} failed: {short(x)}")
                        return
                    ref.maybe.append(r)
                ref.check(j, n, "save")
            elif op[0] == "best":
                k, wp = op[1], op[2]
                got = lib.n_best(k, with_pipelines=wp)
                pool = lib.top_evaluations if (wp or p["m"] is None or k <= p["m"]) else lib.evaluations
                want = sorted((tuple(e.score) for e in pool), reverse=True)[:k]
                if [tuple(e.score) for e in got] != want:
                    w.violate("n_best", f"n_best({k}, with_pipelines={wp}) gives {[e.score for e in got][:6]}, expected {want[:6]}")
                if wp and not ref.maybe and k and got:
                    succ = sorted((r["score"] for r in ref.saved if r["error"] is None), reverse=True)
                    succ = succ if p["m"] is None else succ[:p["m"]]
                    if [tuple(e.score) for e in got] != succ[:k]:
                        w.violate("n_best", f"n_best({k}) gives {[e.score for e in got][:6]}, best successful are {succ[:k][:6]}")
            else:
                lib.forget_evaluations() if hasattr(lib, "forget_evaluations") else None
                if hasattr(lib, "forget_evaluations"):
                    ref.saved, ref.maybe = [], []
                    ref.check(j, n, "forget")
        w.nontrivial = count >= 3
        w.probes["saves"] = count

    # ------------------------------------------------------------------ in a search
    def fit(self, w):
        p, s = w.params, w.sim
        X, y = w.data()
        g = make_gama(w, p)
        m = p["max_models"] if p["post"] == "ens" else 0
        lib = library_of(g)
        ref = Ref(w, lib, m, f"{p['search']}, n_jobs={p['n_jobs']}", os.path.join(g.output_directory, "cache"))
        n = p["hillclimb_size"] if p["post"] == "ens" else None
        state = dict(io=0, n=0)
        watch, orig = Watch(w), {}

        def done(rec):
            r = rec["fut"].result
            if r is not None:
                pr = r.predictions
                orig[id(r)] = (None if pr is None else np.array(pr), sig(r.estimators or []))

        watch.on_done = done

        def cb(e):
            io = sum(s.fired.get(k, 0) for k in ("write_error", "open_error", "torn_write"))
            o = orig.pop(id(e), None)
            if o is None:
                w.violate("foreign", "an evaluation was announced that the search did not receive")
                raise KeyboardInterrupt
            r = dict(e=e, tags=None, sig=o[1], score=tuple(e.score), error=e.error, rowcol=None, pred=o[0])
            (ref.maybe if io > state["io"] else ref.saved).append(r)
            state["io"] = io
            state["n"] += 1
            if not w.violations and (state["n"] % 3 == 0 or ref.maybe):
                ref.check(state["n"], n, "evaluation")
                if w.violations:
                    raise KeyboardInterrupt

        def quietly(e):
            with w.quiet():
                cb(e)

        g.evaluation_completed(quietly)
        exc = fit(w, g, X, y)
        if not w.violations and ref.saved:
            have = {id(e) for e in lib.evaluations}
            missing = [r for r in ref.saved if id(r["e"]) not in have]
            if missing:
                w.violate("missing", f"{len(missing)} announced evaluations are not in the library after fit")
        w.nontrivial = state["n"] >= 3
        w.probes["saves"] = state["n"]


CHECK = C07()
