"""C19: reported scores belong to the pipeline and to unseen rows."""
import numpy as np

from ..lib import (Check, Events, Watch, base_cfg, behaviours, eval_limit, fit, gama_params, job_of, jobs, make_gama, make_search, n_metrics,
                   share, short, succeeded, tune, warm, window)
from .. import seams, stubs
from .c08 import sig_of_ind, sig_of_pipeline

KINDS = ["raise", "raise_text", "memerr", "hang_py", "slow", "fail_score", "fail_late", "slow_late", "swallow"]
EPS = 1e-5


def metric(name, y, est, X):
    from sklearn import metrics as m

    if name == "accuracy":
        return m.accuracy_score(y, est.predict(X))
    if name == "neg_log_loss":
        return -m.log_loss(y, est.predict_proba(X))
    if name == "roc_auc":
        return m.roc_auc_score(y, est.predict_proba(X)[:, 1])
    if name == "r2":
        return m.r2_score(y, est.predict(X))
    return -m.mean_squared_error(y, est.predict(X))


class C19(Check):
    id = "C19"
    quick_runs = 400
    thorough_runs = 15000
    nontrivial = "scores of successful evaluations were recomputed"
    assumptions = ["no clock jumps (durations are wall-clock differences)"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, rng.choice([0.2, 0.6])), final_fit_time=0.05, n_rows=rng.choice([20, 23, 30, 37]),
                       labels=rng.choice([None, None, None, "gaps", "digits", "words"]), stub_uses_random=rng.random() < 0.3, predict_time=rng.choice([0.0, 0.0, 0.02]),
                       index=rng.choice([None, None, "shuffled", "dates"]), unlabeled=rng.choice([0, 0, 0, 1, 4]))
        p = gama_params(rng, search=rng.choice(["ea", "rs", "asha", "asha"]), post=rng.choice(["best", "best", "ens"]),
                        max_total_time=rng.choice([10, 15]), n_jobs=rng.choice([1, 2, 3, 4]), max_eval_time=rng.choice([None, 1, 1, 2]),
                        store=rng.choice(["logs", "all"]))
        if p["task"] == "clf":
            p["scoring"] = rng.choice(["accuracy", "neg_log_loss", "neg_log_loss,accuracy", "accuracy,neg_log_loss", "roc_auc", "roc_auc,accuracy"])
        else:
            p["scoring"] = rng.choice(["neg_mean_squared_error", "r2", "r2,neg_mean_squared_error"])
        tune(rng, cfg, p, (8, 30))
        p["fit_twice"] = rng.random() < 0.15
        return dict(cfg=cfg, params=p, faults=[])

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data(kind=p["task"])
        search = make_search(p)
        try:
            g = make_gama(w, p, search=search)
        except Exception as x:
            w.violate("construct", short(x))
            return
        watch = Watch(w)
        ev = Events(w, g)
        touched = []  # (t, pid, key, model id, rows) of predictions by workers

        def predicted(est, Xp):
            me = s.me()
            if me is not w.main:
                touched.append((s.now, me.pid, stubs.key_of(est), est.fit_id_, stubs.rows_of(Xp)))
        recs = []

        def done(rec):
            r = rec["fut"].result
            if r is None:
                w.violate("no_evaluation", f"an evaluation came back without a record: {rec['fut'].exception!r}")
                return
            recs.append(dict(t=s.now, fid=rec["fid"], ev=r, ind=r.individual, score=tuple(r.score), est=r.estimators, pred=r.predictions,
                             error=r.error, start=r.start_time, dur=r.duration, fit=r.individual.fitness, pid=r.pid,
                             values=tuple(r.individual.fitness.values) if r.individual.fitness else None))
        watch.on_done = done
        n = 0
        for _ in range(2 if p["fit_twice"] else 1):
            n0, t0 = len(recs), s.now
            w.on_predict_hook = predicted
            exc = fit(w, g, X, y)
            if w.violations:
                return
            if not self.judge(w, p, X, y, recs[n0:], ev, watch, touched, t0 + share(p)[0]):
                return
            n += sum(succeeded(r["score"]) for r in recs[n0:])
        w.nontrivial = n > 0
        w.probes["recomputed"] = n

    def judge(self, w, p, X, y, recs, ev, watch, touched, until):
        s = w.sim
        w.on_predict_hook = None
        lab = ~y.isnull().to_numpy()
        Xl = X.loc[lab].reset_index(drop=True)
        codes = Xl["lab"].to_numpy()
        codes = codes if p["task"] == "reg" else w.targets(codes)
        rows = stubs.rows_of(Xl)
        at = {int(r): k for k, r in enumerate(rows)}
        names = p["scoring"].split(",")
        proba = any(m in ("neg_log_loss", "roc_auc") for m in names)
        js = jobs(w)
        fits = {}
        for t, k, d in s.history:
            if k == "stub_fit":
                fits.setdefault(d["pid"], []).append((t, d["key"]))
        subs = {r["fid"]: r for r in watch.submits()}
        said = {}
        for e in ev.items:
            said.setdefault((e["id"], e["start"]), []).append(e)

        for r in recs:
            sub = subs[r["fid"]]
            ind = r["ind"]
            what = f"{sub['pipe']} (worker {r['pid']}, {r['start'].time()})"

            def bad(kind, msg):
                w.violate(kind, f"{what}: {msg}")
                return False
            if str(ind._id) != sub["iid"] or ind.pipeline_str() != sub["pipe"]:
                return bad("individual", f"the evaluation names individual {ind.pipeline_str()}")
            nsteps = len(ind.primitives)
            want_len = n_metrics(p) + (1 if p["regularize_length"] else 0)
            if len(r["score"]) != want_len or (p["regularize_length"] and r["score"][-1] != -nsteps):
                return bad("length", f"score {r['score']} of a pipeline with {nsteps} steps, {n_metrics(p)} metrics, regularize_length={p['regularize_length']}")
            if r["values"] != r["score"]:
                return bad("fitness", f"fitness {r['values']}, score {r['score']}")
            # --- time and place
            t0, t1 = window(r["ev"])
            job = job_of(js, r["pid"], t0)
            if job is None:
                return bad("place", f"worker {r['pid']} was not working at the start time {t0:.4f}s")
            if r["dur"] < 0 or t1 > job[1] + EPS:
                return bad("duration", f"evaluation from {t0:.4f}s for {r['dur']:.4f}s, but the worker was done at {job[1]:.4f}s")
            if abs(r["fit"].wallclock_time - r["dur"]) > EPS or r["fit"].start_time != r["start"]:
                return bad("fitness", f"fitness has start {r['fit'].start_time}, duration {r['fit'].wallclock_time}; evaluation {r['start']}, {r['dur']}")
            slack = 0.05 + sum(d for a, d in s.procs[r["pid"]].stalls if job[0] - d <= a <= job[1])  # the start time is taken before the stopwatch is started
            mine = [t for t, key in fits.get(r["pid"], []) if job[0] <= t <= job[1]]
            if mine and (mine[0] < t0 - EPS or mine[-1] > t1 + slack):
                return bad("duration", f"evaluation from {t0:.4f}s to {t1:.4f}s, but models were trained from {mine[0]:.4f}s to {mine[-1]:.4f}s")
            for e in said.get((str(ind._id), r["start"]), []):
                if e["score"] != r["score"] or e["duration"] != r["dur"] or e["pid"] != r["pid"]:
                    return bad("announced", f"announced with score {e['score']}, received {r['score']}")
            if not succeeded(r["score"][:len(names)]):
                lim = eval_limit(p)
                why = [d["bad"] for t, k, d in s.history if k == "stub_bad" and d["pid"] == r["pid"] and job[0] - EPS <= t <= job[1] + EPS]
                if not why and r["dur"] < (10 if lim is None else lim) - 0.05 and t1 < until - 0.3:
                    return bad("unexplained", f"fails with {r['error']!r:.300} although nothing failed in it")
                continue
            # --- models, rows, scores
            est = r["est"]
            if not est or r["pred"] is None:
                return bad("no_models", f"score {r['score']} without models or predictions")
            sig = sig_of_ind(ind)
            tests, n = [], len(rows)
            for k, m in enumerate(est):
                if sig_of_pipeline(m) != sig:
                    return bad("other_model", f"model {k + 1} is {sig_of_pipeline(m)}, the pipeline is {sig}")
                last = m.steps[-1][1]
                T = [int(x) for x in last.train_rows_]
                if len(set(T)) != len(T) or any(x not in at for x in T):
                    return bad("rows", f"model {k + 1} was trained on rows {T}")
                if not last.y_ok_:
                    return bad("target", f"model {k + 1} was trained on targets that are not those of its rows")
                used = [q for t, pid, key, th, q in touched if pid == r["pid"] and job[0] <= t <= job[1] and th == last.fit_id_]
                test = sorted({int(x) for q in used for x in q} - set(T))
                tests.append(test)
                if p["search"] != "asha" and sorted(T + test) != sorted(at):
                    return bad("rows", f"model {k + 1} was trained on {len(T)} and scored on {len(test)} of {n} rows")
            allt = sorted(x for t in tests for x in t)
            if allt != sorted(at):
                return bad("folds", f"the rows scored by models that were not trained on them are not all rows once: {[len(t) for t in tests]} of {n} rows, "
                                    f"trained on {[len(m.steps[-1][1].train_rows_) for m in est]}")
            pred = np.asarray(r["pred"])
            if len(pred) != n:
                return bad("predictions", f"{len(pred)} predictions for {n} rows")
            vals = {m: [] for m in names}
            for k, (m, test) in enumerate(zip(est, tests)):
                idx = [at[x] for x in test]
                Xt = Xl.iloc[idx]
                for name in names:
                    vals[name].append(metric(name, codes[idx], m, Xt))
                want = m.predict_proba(Xt) if proba else m.predict(Xt)
                got = pred[idx]
                if want.shape != got.shape or not np.allclose(want, got, atol=1e-12, rtol=0):
                    return bad("predictions", f"predictions for rows {test[:5]} are not those of the model that was not trained on them")
            for name, v in zip(names, r["score"]):
                if abs(np.mean(vals[name]) - v) > 1e-9:
                    return bad("score", f"{name} is {v}, recomputed over the folds {np.mean(vals[name])} ({vals[name]})")
        return True

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C19()
