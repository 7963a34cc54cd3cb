"""C16: repeated fits and several instances do not interfere."""
import os

import numpy as np

from ..lib import (Check, Events, ens_fitted, ens_models, Watch, base_cfg, behaviours, cheapen, fit, gama_params, make_gama, make_search, share, short, stall_sum,
                   succeeded, tb, tree, tree_diff, tune, warm)
from .. import seams, stubs
from .c08 import sig_of_ind, sig_of_pipeline

KINDS = ["raise", "memerr", "fail_score", "fail_late"]
EXTRA = 300.0  # MB used by an evaluation where memory matters


class C16(Check):
    id = "C16"
    quick_runs = 260
    thorough_runs = 12000
    nontrivial = "at least two fits took place in one process"
    assumptions = ["instances have their own search and post-processing objects and output directories"]

    def gen_twin(self, rng):
        """The same fit on a used and on a fresh instance."""
        cfg = base_cfg(rng, behaviours=behaviours(rng, ["raise", "memerr"], 0.3), final_fit_time=0.1, p_stall=0.0)
        p = gama_params(rng, n_jobs=1, task="clf", max_total_time=20, post="best", search=rng.choice(["ea", "ea", "ea", "rs", "asha"]),
                        space=rng.choice(["clf_small", "clf_small", "clf"]), population_size=rng.choice([3, 5, 10]), max_eval_time=None,
                        random_state=rng.choice([None, 3]))
        if "roc_auc" in p["scoring"]:
            p["scoring"] = "accuracy"
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([20, 40, 60])
        tune(rng, cfg, p, (60, 100))
        return dict(cfg=cfg, params=dict(twin=True, insts=[p], cheap=True, columns=False, targets=[[2, None], [2, None]],
                                         first=rng.choice([0, 1]), warm=rng.choice([3, 8, 20]), seed=rng.randint(0, 10**6)), faults=[])

    def twin(self, w):
        import random

        p = w.params
        q = p["insts"][0]
        seqs, sel = [], []
        for k in range(2):
            search = make_search(q)
            g = make_gama(w, q, search=search, out=f"out{k}")
            ev = Events(w, g)
            if k == 0:
                fit(w, g, *self.dataset(w, p["first"], q["task"]))
            X, y = self.dataset(w, 1, q["task"])
            random.seed(p["seed"])
            start = [g._operator_set.individual() for _ in range(p["warm"])]
            np.random.seed(p["seed"])
            n0 = len(ev)
            exc = fit(w, g, X, y, warm_start=start)
            seqs.append([[r["pipe"], list(r["score"]), r["error"]] for r in ev.items[n0:]])
            sel.append(short(exc) if exc else sig_of_pipeline(g.model))
        a, b = seqs
        w.nontrivial = min(len(a), len(b)) >= 10
        w.probes["fits"] = 3
        for k, (x, z) in enumerate(zip(a, b)):
            if any("TimeoutException" in (r[2] or "") for r in (x, z)):
                return
            if x != z:
                w.violate("history", f"evaluation {k + 1} ({q['search']}) of a second fit is {x}, that of the same fit on a fresh instance {z}")
                return
        if len(a) == len(b) == q.get("max_n_evaluations") and sel[0] != sel[1]:
            w.violate("history", f"a second fit selected {sel[0]}, the same fit on a fresh instance {sel[1]}")

    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            return self.gen_twin(rng)
        mem = rng.random() < 0.2
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.4), final_fit_time=0.1, p_stall=rng.choice([0.0, 0.0, 0.002]))
        n = rng.choice([1, 1, 2, 2, 3])
        insts = []
        for k in range(n):
            p = gama_params(rng, max_total_time=rng.choice([6, 8, 12]), n_jobs=rng.choice([1, 2, 3, 4]), post=rng.choice(["best", "best", "ens"]),
                            store=rng.choice(["logs", "models", "all", "nothing"]), ensemble_size=rng.choice([1, 4]), max_models=rng.choice([2, 10]),
                            population_size=rng.choice([None, 3, 5]))
            if p["search"] == "ea":
                p["max_n_evaluations"] = rng.choice([None, None, 6, 12])
            p["max_memory_mb"] = rng.choice([None, 10**6])
            if mem and rng.random() < 0.6:
                p["max_memory_mb"] = rng.choice([None, int(200 + 100 * p["n_jobs"] + EXTRA / 2)])
            if "roc_auc" in p["scoring"]:
                p["scoring"] = "accuracy"
            insts.append(p)
        ops = [["make", k] for k in range(n)]
        for _ in range(rng.randint(2, 4)):
            k = rng.randrange(n)
            ops.append(["fit", k, rng.choice([0, 0, 1, 2]), rng.choice([None, None, None, 4, 10])])
        if n > 1 and rng.random() < 0.5:  # constructed in between
            late = ops.pop(n - 1)
            first = [j for j, o in enumerate(ops) if o[0] == "fit" and o[1] == n - 1]
            ops.insert(first[0] if first else len(ops), late)
        cfg["n_rows"] = 40 if any(p["search"] == "asha" for p in insts) else rng.choice([20, 24])
        T = sum(p["max_total_time"] for p in insts) / n
        mean = T * 0.8 * 2 / rng.uniform(10, 25) / 5
        cfg["dur"] = [round(mean * 0.5, 4), round(mean * 1.5, 4)]
        if mem:
            cfg["mem"] = [EXTRA, EXTRA]
            cfg["dur"] = [0.15, 0.3]
        cheap = not mem and rng.random() < 0.4 and all(p["post"] == "best" for p in insts)
        columns = not cheap and rng.random() < 0.5
        faults = []
        if rng.random() < 0.15:
            faults.append(dict(kind="sigint", t=rng.uniform(1, 12), lines=0))
        return dict(cfg=cfg, params=dict(insts=insts, ops=ops, cheap=cheap, mem=mem,
                                           columns=columns, arrays=not columns and rng.random() < 0.4,
                                           targets=[[2, None], rng.choice([[2, None], [3, None], [3, "words"], [2, "gaps"]]),
                                                    rng.choice([[2, None], [3, "ones"], [2, "digits"]])]), faults=faults)

    def dataset(self, w, k, task):
        """Datasets differ in row numbers (and number of rows)."""
        w.cfg["row_base"] = 1000 * (k + 1)
        self.target(w, k)
        X, y = w.data(n=w.cfg["n_rows"] + 5 * k, seed=100 + k, kind=task)
        return self.columns(w, X, k), y

    @staticmethod
    def target(w, k):
        """... in the number of classes and in their labels."""
        w.n_classes, w.cfg["labels"] = w.params["targets"][k]

    @staticmethod
    def columns(w, X, k):
        """They also differ in the columns gama has to encode."""
        import pandas as pd
        if w.params["columns"]:
            m = 12 if k == 1 else 4
            if k:
                c = [f"c{i * 5 % m}" if i % 7 else None for i in range(len(X))]
                X["cat"] = pd.Categorical(c, categories=[f"c{i}" for i in range(m)])
            if k == 2:
                X["two"] = pd.Categorical(["a" if i % 3 else "b" for i in range(len(X))], categories=["a", "b"])
        if w.params.get("arrays"):
            X = X.copy()
            if (X["lab"] % 1 == 0).all():
                X["lab"] += 0.25  # few whole numbers would be taken for a category
            for i in range([2, 0, 1][k]):
                X[f"z{i}"] = [0.5 + 3 * r for r in range(len(X))]
            X = X.to_numpy()
        return X

    def run(self, w):
        p, s = w.params, w.sim
        if p["cheap"]:
            cheapen(w)
        if p.get("twin"):
            return self.twin(w)
        watch = Watch(w)
        G, E, S, D, last, data = {}, {}, {}, {}, {}, {}
        nfit = 0
        s.max_sim_time = 3600
        for op in p["ops"]:
            k = op[1]
            q = p["insts"][k]
            others = {j: self.files(D[j]) for j in D if j != k}
            if op[0] == "make":
                D[k] = os.path.abspath(f"out{k}")
                S[k] = make_search(q)
                try:
                    G[k] = make_gama(w, q, search=S[k], out=f"out{k}")
                except Exception as x:
                    w.violate("construct", f"instance {k} can not be constructed after {p['ops']}: {short(x)}\n{tb(x)}")
                    return
                E[k] = Events(w, G[k])
            elif k in G:
                nfit += 1
                X, y = self.dataset(w, op[2], q["task"])
                if not self.fitted(w, k, q, G[k], E[k], S[k], D[k], X, y, op, watch, f"fit {nfit} (instance {k}, data {op[2]})"):
                    return
                data[k] = op[2]
                last[k] = self.predictions(w, G[k], q, op[2]) if G[k].model is not None else None
            for j, f in others.items():
                d = tree_diff(f, self.files(D[j]))
                if d:
                    w.violate("files", f"{op} changed the directory of instance {j}: {d[:4]}")
                    return
            for j in last:
                if j != k and last[j] is not None:
                    now = self.predictions(w, G[j], p["insts"][j], data[j])
                    if not self.equal(last[j], now):
                        w.violate("model", f"{op} changed the predictions of instance {j}: {last[j]} -> {now}")
                        return
        w.nontrivial = nfit >= 2
        w.probes["fits"] = nfit

    @staticmethod
    def equal(a, b):
        return isinstance(a, str) == isinstance(b, str) and (a == b if isinstance(a, str) else len(a) == len(b) and bool(np.all(a == b)))

    @staticmethod
    def files(d):
        return {k: v for k, v in tree(d).items() if k != "gama.log"}  # messages of the "gama" logger go to all its handlers

    def predictions(self, w, g, q, k):
        base = w.cfg["row_base"]
        self.target(w, k)
        w.cfg["row_base"] = 9000
        X, _ = w.data(n=9, seed=7, kind=q["task"])
        w.cfg["row_base"] = base
        X = self.columns(w, X, k)
        try:
            return np.asarray(g.predict(X))
        except Exception as x:
            return short(x)

    def fitted(self, w, k, q, g, ev, search, out, X, y, op, watch, what):
        s, p = w.sim, w.params
        k_data = op[2]
        start = warm(g, op[3]) if len(op) > 3 and op[3] else None
        n0, f0, p0 = len(ev), len(w.final_fits), len(watch.log)
        before = {x.pid for x in s.procs.values()}
        model0 = g.model
        t0 = s.now
        exc = fit(w, g, X, y, warm_start=start)
        items = ev.items[n0:]
        took = w.fit_time
        rows = {int(r) for r in (X["row"] if hasattr(X, "columns") else stubs.rows_of(X))}
        workers = [x for x in s.procs.values() if x.pid not in before]
        peak = self.peak(workers)
        sub = [r for r in watch.log[p0:] if r["op"] == "submit"]
        interrupted = any(t >= t0 for t, kk, d in s.history if kk == "fault_sigint")
        lo, hi = share(q)
        # --- its own settings
        tight = q["max_memory_mb"] is not None and q["max_memory_mb"] < 10**5
        if peak > q["n_jobs"] or (peak < q["n_jobs"] and sub):  # else it was interrupted while starting them
            w.violate("n_jobs", f"{what} used {peak} workers, its n_jobs is {q['n_jobs']}")
            return False
        cap = q.get("max_n_evaluations")
        ndone = len([r for r in watch.log[p0:] if r["op"] == "done"])
        if took < lo and not interrupted and not (cap and ndone >= cap):
            w.violate("budget", f"{what} ended after {took:.2f}s, its search has {hi:.1f}s ({short(exc) if exc else 'returned'})\n{tb(exc) if exc else ''}")
            return False
        if took > hi + 20 + 0.3 * q["max_total_time"] + stall_sum(w, t0):
            w.violate("budget", f"{what} took {took:.2f}s, its budget is {q['max_total_time']}s")
            return False
        end = max((r["t"] for r in watch.log[p0:] if r["op"] == "done"), default=t0)
        kills = [x for x in workers if x.killed_by == w.main.pid and x.ended_at <= end]
        if not tight and kills:
            w.violate("memory", f"{what} has a memory limit of {q['max_memory_mb']}, but {len(kills)} workers were stopped")
            return False
        fits = [t for t, kk, d in s.history if kk == "stub_fit" and t >= t0]
        if tight and p["mem"] and not [x for x in workers if x.killed_by == w.main.pid and x.ended_at < t0 + hi - 0.5] and fits and \
                took > lo and not stall_sum(w, t0):
            w.violate("memory", f"{what} has a memory limit of {q['max_memory_mb']}, but no worker was stopped")
            return False
        # --- only what this call evaluated
        ids = {r["id"] for r in items}
        sent = {r["iid"] for r in sub}
        stray = ids - sent
        if stray:
            w.violate("evaluations", f"{what} was told of {len(stray)} evaluations it did not submit")
            return False
        texts = {d["text"] for t, kk, d in s.history if kk == "stub_bad" and t >= t0 and d["text"]}
        for r in items:
            e = r["error"]
            if e is None or "MemoryError" in e or "TimeoutException" in e or e == "Not a full evaluation." or "stub failure" in e or any(x in e for x in texts):
                continue
            w.violate("pipeline", f"{what}: {r['pipe']} failed, which no component did: {e[:200]}")
            return False
        good = [r for r in items[:-1] if succeeded(r["score"]) and (q["post"] == "best" or r["error"] is None)]
        if exc is not None:
            if good and not isinstance(exc, KeyboardInterrupt):
                w.violate("fit_failed", f"{what} raised {short(exc)} after {len(good)} successful evaluations\n{tb(exc)}")
                return False
            return True
        if not good:
            return True
        for i in search.output:
            if str(i._id) not in ids and not (interrupted or took >= lo):
                w.violate("selection", f"{what} selected {i._id}, which it did not evaluate")
                return False
            st = i.fitness.start_time.timestamp()
            if st < t0 + s.wall_offset + seams.EPOCH - 0.01:
                w.violate("selection", f"{what} selected {i.pipeline_str()} with a fitness from before this call")
                return False
        m = g.model
        if m is model0 and m is not None and q["post"] == "best":
            w.violate("model", f"{what} left the model of an earlier call")
            return False
        if q["post"] == "best":
            mine = [set(r) for _, r in w.final_fits[f0:]]
            if not mine or mine[-1] != rows:
                w.violate("rows", f"{what}: the final model was trained on {len(mine[-1]) if mine else 0} rows, expected the {len(rows)} of this call")
                return False
        else:
            for iid in ens_models(m) or ():
                if str(iid) not in ids:
                    w.violate("library", f"{what}: the ensemble contains {iid}, which was not evaluated in this call")
                    return False
            for est, _ in ens_fitted(m) or ():
                tr = set(est.steps[-1][1].train_rows_.tolist())
                if not tr <= rows:
                    w.violate("rows", f"{what}: a model of the ensemble was trained on {len(tr - rows)} rows of another call")
                    return False
        pr = self.predictions(w, g, q, k_data)
        if isinstance(pr, str):
            w.violate("unusable", f"after {what}: predict fails with {pr}")
            return False
        if q["task"] == "clf" and not set(pr.tolist()) <= set(y.tolist()):
            w.violate("unusable", f"after {what}: predict gives {sorted(set(pr.tolist()), key=str)}, the labels are {sorted(set(y.tolist()), key=str)}")
            return False
        return self.files_of(w, q, out, items, what)

    def files_of(self, w, q, out, items, what):
        have = tree(out) if os.path.isdir(out) else None
        st = q["store"]
        if st == "nothing":
            if have is not None:
                w.violate("artefacts", f"after {what}: store='nothing', but the directory exists")
                return False
            return True
        names = {x.split(os.sep)[0] for x in have or {}}
        if have is None or ("cache" in names) != (st in ("models", "all")) or \
                ({"evaluations.log", "memory.log"} <= names) != (st in ("logs", "all")):
            w.violate("artefacts", f"after {what}: store={st!r}, the directory holds {sorted(names)}")
            return False
        if st in ("logs", "all"):
            with seams.R["open"](os.path.join(out, "evaluations.log"), newline="") as fh:
                text = fh.read()
            miss = [r["id"] for r in items if r["id"] not in text]
            if miss:
                w.violate("log", f"after {what}: {len(miss)} of {len(items)} evaluations are missing from its log")
                return False
        return True

    @staticmethod
    def peak(workers):
        ev = sorted([(x.spawned_at, 1) for x in workers] + [(x.ended_at, -1) for x in workers if x.ended_at is not None])
        cur = best = 0
        for _, d in ev:
            cur += d
            best = max(best, cur)
        return best

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C16()
