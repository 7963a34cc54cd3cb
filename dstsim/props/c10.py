"""C10: successive halving follows its promotion rule (replayed by a reference model)."""
import math

from ..lib import (Check, Watch, base_cfg, behaviours, fit, gama_params, job_of, jobs, make_gama, make_search, share, short,
                   succeeded, tune, warm, window)
from .. import stubs

KINDS = ["raise", "memerr", "fail_score", "fail_late", "slow"]
# (min, max, factor, rows)
FLOATS = [(None, None), (0.125, 1.0), (0.25, 1.0), (0.5, 1.0), (0.3, 0.9), (0.2, 0.75)]
INTS = [(8, 32, 60), (10, 40, 60), (12, 24, 50), (8, 47, 60)]
NINF = float("-inf")


def top_rung(lo, hi, eta):
    k, r = 0, lo
    while r < hi * (1 - 1e-9):
        r *= eta
        k += 1
    return k


class C10(Check):
    id = "C10"
    quick_runs = 450
    thorough_runs = 20000
    nontrivial = "at least one candidate was promoted"
    assumptions = ["no worker is lost (a lost job yields no completion)", "sample sizes fit into the training part of a fold"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, rng.choice([0.3, 0.9])))
        p = gama_params(rng, search="asha", max_total_time=rng.choice([10, 20, 40]), post=rng.choice(["best", "ens"]))
        p["reduction_factor"] = rng.choice([None, 2, 2, 3, 4])
        n = 0
        if rng.random() < 0.35:
            p["minimum_resource"], p["maximum_resource"], n = rng.choice(INTS)
        else:
            p["minimum_resource"], p["maximum_resource"] = rng.choice(FLOATS)
        lo, hi, eta = self.settings(p)
        p["early_rate"] = rng.choice([None, None, 0, 1, top_rung(lo, hi, eta)])
        if p["early_rate"]:
            p["early_rate"] = min(p["early_rate"], top_rung(lo, hi, eta))
        p["warm"] = rng.choice([None, None, 1, 5, 12])
        tune(rng, cfg, p, (12, 80))
        cfg["n_rows"] = n or rng.choice([40, 60])
        cfg["n_classes"] = min(cfg["n_classes"], 2 if n else 3)
        faults = []
        if rng.random() < 0.3:
            faults.append(dict(kind="sigint", t=rng.uniform(0.1, p["max_total_time"]), lines=rng.choice([0, rng.randint(1, 300)])))
        return dict(cfg=cfg, params=p, faults=faults)

    @staticmethod
    def settings(p):
        lo = p["minimum_resource"] if p["minimum_resource"] is not None else 0.125
        hi = p["maximum_resource"] if p["maximum_resource"] is not None else 1.0
        return lo, hi, p["reduction_factor"] or 3

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data(kind=p["task"])
        search = make_search(p)
        g = make_gama(w, p, search=search)
        watch = Watch(w)

        def done(rec):
            r = rec["fut"].result
            if r is None:
                w.violate("no_evaluation", f"an evaluation came back without a record: {rec['fut'].exception!r}")
                return
            rec.update(iid=str(r.individual._id), score=tuple(r.score), error=r.error, pid=r.pid,
                       meta=dict(r.individual.meta), t0=window(r)[0])

        watch.on_done = done
        leaks = []

        def predicted(est, Xp):
            me = s.me()
            if me is not w.main and me.job is not None:
                both = set(stubs.rows_of(Xp).tolist()) & set(est.train_rows_.tolist())
                if both:
                    leaks.append((stubs.key_of(est), len(both)))

        w.on_predict_hook = predicted
        exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
        w.on_predict_hook = None
        if w.violations:
            return
        lo, hi = share(p)
        if w.fit_time < lo and not w.faults:
            w.violate("search_stopped", f"the search ended after {w.fit_time:.2f}s of {hi:.1f}s ({short(exc) if exc else 'returned'})")
        if leaks:
            w.violate("leak", f"{leaks[0][0]} was scored on {leaks[0][1]} rows it was trained on")
        self.judge(w, p, watch, search, X, y)

    # ------------------------------------------------------------------ reference model
    def judge(self, w, p, watch, search, X, y):
        lo, hi, eta = self.settings(p)
        early = p["early_rate"] or 0
        top = top_rung(lo, hi, eta)
        res = {r: min(lo * eta ** r, hi) for r in range(early, top + 1)}
        results = {r: [] for r in range(top, early - 1, -1)}
        promoted = {r: set() for r in results}
        at = {}  # candidate -> rung it was last submitted to
        pending = {}  # fid -> (candidate, rung)
        started = False
        due = 0  # jobs that have to follow
        log = watch.log
        js = jobs(w)
        fits = [(t, d) for t, k, d in w.sim.history if k == "stub_fit"]
        sizes = self.fold_sizes(p, X, y)
        npromo = 0

        def bad(k, msg):
            w.violate("rule", f"step {k}: {msg} (rungs {early}..{top}, factor {eta}, "
                              f"results { {r: len(v) for r, v in results.items()} }, promoted { {r: len(v) for r, v in promoted.items()} })")

        for k, rec in enumerate(log):
            if rec["op"] == "submit":
                if started and not due:
                    return bad(k, "a job was submitted that does not follow a completed evaluation")
                due = 0
                iid = rec["iid"]
                prev = at.get(iid)
                rung = early if prev is None else prev + 1
                want = None
                for r in results:
                    if r == top:
                        continue
                    if math.floor(len(results[r]) / eta) > len(promoted[r]):
                        left = [(sc, i) for sc, i in results[r] if i not in promoted[r]]
                        if left:
                            best = max(sc for sc, _ in left)
                            want = (r, {i for sc, i in left if sc == best})
                            break
                if want is None:
                    if prev is not None:
                        return bad(k, f"candidate {iid[:8]} of rung {prev} was submitted again although no promotion was due")
                else:
                    r, who = want
                    if iid not in who or prev != r:
                        return bad(k, f"expected the promotion of one of {sorted(x[:8] for x in who)} from rung {r} "
                                      f"(score {max(sc for sc, i in results[r] if i in who)}), but "
                                      f"{'a new candidate' if prev is None else f'{iid[:8]} of rung {prev}'} was submitted")
                    promoted[r].add(iid)
                    npromo += 1
                at[iid] = rung
                pending[rec["fid"]] = (iid, rung)
            else:
                if due:
                    return bad(k, "no job followed the previous completed evaluation")
                started, due = True, 1
                if rec["fid"] not in pending:
                    return bad(k, "an evaluation completed that was not submitted (or completed before)")
                iid, rung = pending.pop(rec["fid"])
                if rec["iid"] != iid:
                    return bad(k, f"evaluation of {iid[:8]} returned {rec['iid'][:8]}")
                m = rec["meta"]
                if m.get("rung") != rung or not math.isclose(m.get("subsample") or -1, res[rung]):
                    return bad(k, f"evaluation of {iid[:8]} on rung {rung} (sample {res[rung]}) is reported as rung "
                                  f"{m.get('rung')}, sample {m.get('subsample')}")
                ok = succeeded(rec["score"])
                if (rec["error"] is None) != (ok and rung == top):
                    return bad(k, f"evaluation on rung {rung} of {top} with score {rec['score']} has error {rec['error']!r:.100}")
                j = job_of(js, rec["pid"], rec["t0"])
                if j is not None and ok:
                    got = sorted(d["n"] for t, d in fits if d["pid"] == rec["pid"] and j[0] - 1e-5 <= t <= j[1] + 1e-5)
                    exp = sorted(self.expected(res[rung], n, len(y)) for n in sizes)
                    if len(got) != len(exp) or any(abs(a - b) > 1 for a, b in zip(got, exp)):
                        return bad(k, f"evaluation on rung {rung} (sample {res[rung]}) trained on {got} rows, expected {exp}")
                results[rung].append((rec["score"][0], iid))
        w.nontrivial = npromo > 0
        w.probes["promotions"] = npromo
        w.probes["top_rung"] = len(results[top])
        w.probes["evaluations"] = len(watch.dones())
        # --- what the search returns
        out = [str(i._id) for i in search.output]
        dones = watch.dones()
        last = dones[-1]["iid"] if dones else None
        poss = [self.selection(results)]
        if dones:
            r = dones[-1]["meta"]["rung"]
            without = {q: list(v) for q, v in results.items()}
            without[r] = [x for x in without[r] if x[1] != last]
            poss.append(self.selection(without))
        if sorted(out) not in [sorted(x) for x in poss]:
            w.violate("returned", f"returned {len(out)} candidates {[o[:8] for o in out][:6]}, the highest rung with a success holds "
                                  f"{[o[:8] for o in poss[0]][:6]} ({ {r: (len(v), sum(x[0] > NINF for x in v)) for r, v in results.items()} })")

    @staticmethod
    def selection(results):
        for r in results:  # highest first
            ok = [i for sc, i in results[r] if sc > NINF]
            if ok:
                return ok
        return []

    @staticmethod
    def expected(sample, n, total):
        if isinstance(sample, float):
            return n if sample >= 1.0 else math.floor(sample * n)
        return min(sample, n)

    @staticmethod
    def fold_sizes(p, X, y):
        from sklearn.model_selection import check_cv
        cv = check_cv(5, y, classifier=p["task"] == "clf")
        return [len(a) for a, _ in cv.split(X, y)]

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C10()
