"""C08: fit yields a usable model built from the best successful result."""
import ast
import re

import numpy as np

from ..lib import (Check, Events, ens_fitted, ens_models, Watch, base_cfg, behaviours, fit, gama_params, make_gama, make_search, n_metrics, share,
                   short, succeeded, tb, tune, warm)
from .. import stubs

KINDS = ["raise", "memerr", "fail_score", "fail_late", "hang_py", "slow", "hang_native", "slow_native"]
INF = float("inf")


def sig_of_pipeline(pipe):
    """The steps that stem from the search space."""
    return [stubs.key_of(s) for _, s in pipe.steps if type(s).__module__ == stubs.__name__]


def sig_of_ind(ind):
    """The same for an individual, from what it says it is (not from the pipeline it compiles to)."""
    return sig_of_str(ind.pipeline_str())


def sig_of_str(text):
    node = ast.parse(re.sub(r"([(,] ?)\w+\.(\w+=)", r"\1\2", text), mode="eval").body
    out = []
    while isinstance(node, ast.Call):
        cls = getattr(stubs, node.func.id, None) or getattr(stubs, "_" + node.func.id)
        out.append(stubs.key_of(cls(**{k.arg: ast.literal_eval(k.value) for k in node.keywords})))
        node = node.args[0]
    return out[::-1]


def watch_search(search):
    """Notes whether an interrupt left the search itself."""
    state = dict(entered=0, left=0, exc=None)
    orig = search.search

    def run(*a, **k):
        state["entered"] += 1
        try:
            return orig(*a, **k)
        except BaseException as e:
            state["exc"] = e
            raise
        finally:
            state["left"] += 1

    search.search = run
    return state


class C08(Check):
    id = "C08"
    quick_runs = 600
    thorough_runs = 25000
    nontrivial = "at least one evaluation succeeded before the search ended"
    assumptions = ["an interrupt that arrives after the search phase is not part of the search's ending",
                   "for the successive-halving search an ensemble needs a successful full (top-rung) evaluation"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.9), final_fit_time=rng.choice([0.05, 1.0]),
                       labels=rng.choice([None, None, "gaps", "ones", "digits", "words"]))
        cfg["recv_time"] = rng.choice([0.0, 0.0, 0.05, 0.4])
        p = gama_params(rng, max_total_time=rng.choice([8, 12, 20]), post=rng.choice(["best", "ens"]),
                        ensemble_size=rng.choice([1, 2, 5, 12]), max_models=rng.choice([1, 2, 5, 50]),
                        hillclimb_size=rng.choice([6, 8, 10_000]))
        if p["task"] == "clf" and rng.random() < 0.15:
            p["scoring"] = "accuracy,neg_log_loss"
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, 1, 4, 20])
        p["warm"] = rng.choice([None, None, 1, 5])
        p["cb"] = rng.random() < 0.1 and rng.randint(1, 10)
        tune(rng, cfg, p, (70, 110) if p["search"] == "rs" and rng.random() < 0.15 else (2, 60))
        faults = []
        T = p["max_total_time"]
        u = rng.random()
        if u < 0.45 and not p["cb"]:
            f = dict(kind="sigint", lines=rng.choice([0, 0, rng.randint(1, 50), rng.randint(1, 400)]), group=rng.random() < 0.2)
            if rng.random() < 0.6:
                f["t"] = rng.uniform(0.1, T)
            else:
                f.update(phase="fit", seam=rng.choice(["poll", "put", "open", "write", "sleep", "memory_info", "spawn", "empty", "terminate"]),
                         n=rng.randint(1, 150))
            faults.append(f)
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data(kind=p["task"])
        search = make_search(p)
        sstate = watch_search(search)
        g = make_gama(w, p, search=search)
        ev = Events(w, g)
        watch = Watch(w)
        snaps = {}

        def done(rec):
            r = rec["fut"].result
            if r is not None:
                snaps.setdefault(str(r.individual._id), []).append(
                    [(stubs.key_of(e.steps[-1][1]), e.steps[-1][1].train_hash_) for e in (r.estimators or [])])

        watch.on_done = done
        if p["cb"]:
            def cb(e):
                if len(ev) == p["cb"]:
                    s.fire("callback_interrupt")
                    raise KeyboardInterrupt
            g.evaluation_completed(cb)
        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
        items = list(ev)
        sure, last = items[:-1], items[-1:]  # the last one may have been interrupted on its way into the bookkeeping
        full = [r for r in items if r["error"] is None]
        good = [r for r in items if succeeded(r["score"])]
        sure_full = [r for r in sure if r["error"] is None]
        sure_good = [r for r in sure if succeeded(r["score"])]
        need = sure_full if p["post"] == "ens" else sure_good
        w.nontrivial = bool(good)
        w.probes["evaluations"] = len(items)
        w.probes["successes"] = len(good)
        w.probes["fit_raised"] = int(exc is not None)
        if exc is not None:
            if isinstance(exc, KeyboardInterrupt) and not isinstance(sstate["exc"], KeyboardInterrupt):
                return  # it arrived outside of the search
            if need:
                w.violate("no_model", f"{len(need)} evaluations succeeded but fit raised {short(exc)}\n{tb(exc)}")
            return
        if not need:
            return
        m = g.model
        if m is None:
            w.violate("no_model", f"{len(need)} evaluations succeeded but there is no model")
            return
        if p["post"] == "best":
            self.single(w, p, g, m, search, sure_good, good, X)
        else:
            self.ensemble(w, p, m, full, sure_full, snaps)
        if not w.violations:
            self.usable(w, p, g, y)

    # ------------------------------------------------------------------ single model
    def single(self, w, p, g, m, search, sure, good, X):
        if not w.final_fits or not hasattr(m, "steps"):
            w.violate("not_trained", "the model was not trained on the training data after the search")
            return
        key, rows = w.final_fits[-1]
        if list(rows) != sorted(int(r) for r in X["row"]):
            w.violate("training_rows", f"the final model was trained on {len(rows)} of {len(X)} rows")
        ms = sig_of_pipeline(m)
        out = list(search.output)
        mine = [i for i in out if sig_of_ind(i) == ms]
        if not mine:
            w.violate("not_selected", f"the final model {ms} is not in the final selection of the search ({len(out)} individuals)")
            return
        vals = lambda i: tuple(i.fitness.values)
        if not any(succeeded(vals(i)) for i in mine):
            w.violate("failed_model", f"the final model {ms} failed in its evaluation: {vals(mine[0])}")
            return
        best = max(vals(i) for i in out)
        if max(vals(i) for i in mine) != best:
            w.violate("not_best", f"the final model scored {max(vals(i) for i in mine)}, the selection contains {best}")
        # the selection itself
        got = max(vals(i) for i in mine)
        if p["search"] == "rs" or (p["search"] == "ea" and len(good) <= (p["population_size"] or 50)):
            top = max(r["score"] for r in sure)
            if got < top:
                w.violate("not_best", f"the final model scored {got}, but an evaluation with {top} had been announced")
        if p["search"] == "asha":
            rung = max(r["meta"].get("rung", -1) for r in sure)
            top = max(r["score"] for r in sure if r["meta"].get("rung", -1) == rung)
            newer = [r for r in good if r["meta"].get("rung", -1) > rung]
            if not newer and got < top:
                w.violate("not_best", f"the final model scored {got}, but in the highest rung with results ({rung}) one scored {top}")

    # ------------------------------------------------------------------ ensemble
    def ensemble(self, w, p, m, full, sure, snaps):
        models, fitted = ens_models(m), ens_fitted(m)
        if models is None or fitted is None:
            return  # another representation: judged by its predictions only
        if not models or not fitted:
            w.violate("empty_ensemble", f"{len(sure)} full evaluations succeeded but the ensemble has no (fitted) models")
            return
        ws = [wt for _, wt in models.values()]
        if any(not isinstance(v, (int, np.integer)) or v < 1 for v in ws) or sum(ws) != p["ensemble_size"]:
            w.violate("weights", f"weights {ws} for an ensemble of size {p['ensemble_size']}")
        if len(models) > p["max_models"]:
            w.violate("too_many_models", f"{len(models)} models, max_models is {p['max_models']}")
        scores = sorted((r["score"] for r in sure), reverse=True)
        k = min(p["max_models"], len(scores))
        cut = scores[k - 1] if len(scores) > p["max_models"] else None
        byid = {}
        for r in full:
            byid.setdefault(r["id"], []).append(r)
        for iid, (e, wt) in models.items():
            rs = byid.get(str(iid))
            if not rs or str(e.individual._id) != str(iid):
                w.violate("failed_model", f"the ensemble contains {iid}, which is not a successful full evaluation of this search")
                return
            if cut is not None and max(r["score"] for r in rs) < cut:
                w.violate("not_best", f"the ensemble contains a model scoring {rs[0]['score']}, the {k} best score at least {cut}")
        if w.final_fits:
            w.violate("retrained", "models of the ensemble were trained again after the search")
        want = []
        for iid, (e, wt) in models.items():
            want += [(x, wt) for x in snaps[str(iid)][-1]]
        got = [((stubs.key_of(est.steps[-1][1]), est.steps[-1][1].train_hash_), wt) for est, wt in fitted]
        if sorted(want) != sorted(got):
            w.violate("models", f"fitted models of the ensemble are {got[:6]}, those of the selected evaluations {want[:6]}")

    # ------------------------------------------------------------------ predictions
    def usable(self, w, p, g, y):
        X2, _ = w.data(n=11, seed=5, kind=p["task"])
        try:
            pred = g.predict(X2)
            prob = g.predict_proba(X2) if p["task"] == "clf" else None
        except Exception as x:
            w.violate("unusable", f"predict fails after fit ({p['scoring']}, {p['post']}): {short(x)}\n{tb(x)}")
            return
        if np.shape(pred) != (11,):
            w.violate("unusable", f"predict gives shape {np.shape(pred)} for 11 rows")
            return
        if p["task"] == "clf":
            if not set(np.asarray(pred).tolist()) <= set(y.tolist()):
                w.violate("unusable", f"predictions {sorted(set(np.asarray(pred).tolist()))} are not labels of {sorted(set(y.tolist()))}")
            if prob.shape != (11, len(set(y))) or not np.allclose(prob.sum(axis=1), 1):
                w.violate("unusable", f"predict_proba has shape {prob.shape} / sums {prob.sum(axis=1)[:3]}")
        elif not np.all(np.isfinite(np.asarray(pred, dtype=float))):
            w.violate("unusable", f"predictions {pred}")
        if w.violations:
            return
        if p["post"] == "ens":
            self.combination(w, p, g, X2, pred, prob)
        else:
            last = g.model.steps[-1][1]
            if p["task"] == "reg":
                if not np.allclose(last.predict(X2), pred):
                    w.violate("prediction", "predict does not give what the model predicts")
            else:
                self.labelled(w, last._codes(X2)[0][:, None] == np.arange(w.n_classes), pred)
                if not np.allclose(last.predict_proba(X2), prob):
                    w.violate("prediction", "predict_proba does not give what the model predicts")

    @staticmethod
    def labelled(w, ok, pred):
        """pred[i] has to be the label of a class c with ok[i, c]."""
        for i, v in enumerate(np.asarray(pred).tolist()):
            want = [w.label(c) for c in range(ok.shape[1]) if ok[i, c]]
            if v not in want:
                w.violate("prediction", f"predict gives {v!r} for row {i}, the model's answer is {want}")
                return

    def combination(self, w, p, g, X2, pred, prob):
        """The ensemble's output is the weighted combination of its fitted models."""
        fitted = ens_fitted(g.model)
        if fitted is None:
            return
        tot = sum(wt for _, wt in fitted)
        x = X2
        if p["task"] == "reg":
            want = sum(wt * est.predict(x) for est, wt in fitted) / tot
            if not np.allclose(want, pred):
                w.violate("combination", "the prediction is not the weighted mean of the models")
            return
        if p["scoring"].split(",")[0] in ("accuracy",):
            cls = w.targets(range(prob.shape[1])).tolist()
            want = np.zeros(prob.shape)
            for est, wt in fitted:
                for i, c in enumerate(est.predict(x)):
                    want[i, cls.index(c)] += wt / tot
        else:
            want = sum(wt * est.predict_proba(x) for est, wt in fitted) / tot
        want = np.asarray(want)
        self.labelled(w, np.isclose(want, want.max(axis=1)[:, None]), pred)
        if not np.allclose(want, prob):
            w.violate("combination", "predict_proba is not the weighted mean of the models")

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C08()
