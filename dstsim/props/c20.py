"""C20: a report read at any moment of a search reconstructs the evaluations."""
import contextlib
import io
import math
import warnings

from ..lib import (Check, Events, Watch, base_cfg, behaviours, cheapen, fit, gama_params, make_gama, make_search, short, stall_sum, succeeded, tb, tune, warm)

KINDS = ["raise", "raise_text", "raise_text", "memerr", "fail_score", "fail_late", "hang_py"]
SEARCH = dict(ea="AsyncEA", rs="RandomSearch", asha="AsynchronousSuccessiveHalving")
POST = dict(best="BestFitPostProcessing", ens="EnsemblePostProcessing")


def norm(text):
    if text is None or (isinstance(text, float) and math.isnan(text)) or text == "None":
        return None
    return str(text).replace("\r\n", "\n").replace("\r", "\n")


class C20(Check):
    id = "C20"
    quick_runs = 450
    thorough_runs = 20000
    nontrivial = "a report was read and its evaluations compared"
    assumptions = ["one instance per process writes to gama.log", "records are written by a single write (shorter than the I/O buffer)"]

    def gen(self, rng, i, tier):
        cheap = rng.random() < 0.6
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, rng.choice([0.3, 0.7])), final_fit_time=0.05)
        p = gama_params(rng, post="best" if cheap else rng.choice(["best", "ens"]), max_total_time=rng.choice([6, 10, 15]), store=rng.choice(["logs", "all"]),
                        n_jobs=rng.choice([1, 2, 3]), cheap=cheap, max_eval_time=rng.choice([None, 1]))
        if p["task"] == "reg" and rng.random() < 0.3:
            p["scoring"] = "r2,neg_mean_squared_error"
        if p["task"] == "reg":
            p["space"] = "reg_private"
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, None, 1, 3, 20])
        tune(rng, cfg, p, (8, 70) if cheap else (6, 25))
        p["opens"] = sorted(rng.choice([-1, 0, 0, 1, 2, rng.randrange(40)]) for _ in range(rng.choice([0, 1, 1, 2])))
        p["p_update"] = rng.choice([0.1, 0.4, 1.0])
        p["fits"] = rng.choice([1, 1, 1, 2])
        faults = []
        if rng.random() < 0.2:
            faults.append(dict(kind="sigint", t=rng.uniform(0.5, 10), lines=0))
        if rng.random() < 0.15:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.5, 10), idx=0))
        return dict(cfg=cfg, params=p, faults=faults)

    @staticmethod
    def read(fn, *a):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a)

    def run(self, w):
        from gama.logging.GamaReport import GamaReport

        p, s = w.params, w.sim
        if p["cheap"]:
            cheapen(w)
        rng = s_rng(w)
        X, y = w.data(kind=p["task"])
        search = make_search(p)
        g = make_gama(w, p, search=search)
        ev = Events(w, g, keep=True)
        got = Events(w, keep=True)  # what the search received; the last one may have been written but not announced to us
        watch = Watch(w)
        watch.on_done = lambda rec: got(rec["fut"].result) if rec["fut"].result is not None else None
        live = []
        problems = []
        nreads = [0]

        def guarded(what, fn, *a):
            with w.quiet():  # the reader is another program: what interrupts the search does not hit it
                try:
                    return self.read(fn, *a)
                except Exception as x:
                    problems.append(("unreadable", f"{what} after {len(ev)} evaluations: {short(x)}\n{tb(x)}"))

        def look(r, what):
            nreads[0] += 1
            with w.quiet():
                why = None
                for items in self.truths(ev.items, got.items):
                    why = self.compare(p, r, items)
                    if why is None:
                        break
            if why:
                problems.append(why if isinstance(why, tuple) else ("evaluations", f"{what} after {len(ev)} evaluations: {why}"))

        def open_new():
            r = guarded("opening a report", GamaReport, g.output_directory)
            if r is not None:
                live.append((len(ev), r))
                look(r, "a report opened")

        def on(e):
            if problems:
                return
            n = len(ev) - 1
            for k in p["opens"]:
                if k == n and not marks:  # during the first fit
                    open_new()
            for at, r in live:
                if rng.random() < p["p_update"] and not problems:
                    if guarded(f"updating a report opened after {at}", r.update) is not None:
                        look(r, f"a report opened after {at} evaluations and updated")
        marks = []
        g.evaluation_completed(on)
        if -1 in p["opens"]:
            open_new()
        ok = True
        for k in range(p["fits"]):
            t0 = s.now
            exc = fit(w, g, X, y)
            marks.append((t0, s.now, len(ev)))
            ok = ok and exc is None
        w.paused = True
        for at, r in live:
            if not problems:
                guarded(f"updating a report opened after {at}", r.update)
            if not problems:
                look(r, f"a report opened after {at} evaluations and updated at the end")
        if not problems:
            r = guarded("opening a report at the end", GamaReport, g.output_directory)
            if r is not None:
                look(r, "a report opened at the end")
                if not problems:
                    self.final(w, p, r, ev, marks, ok, problems)
        if problems:
            w.violate(*problems[0])
        w.nontrivial = len(ev) > 0
        w.probes["reads"] = nreads[0]

    @staticmethod
    def truths(announced, received):
        """What a report may list: everything announced; and what was received when a fit was cut off."""
        yield announced
        ids = {id(e["eval"]) for e in announced}
        extra = [k for k, e in enumerate(received) if id(e["eval"]) not in ids]
        if extra and len(extra) <= 2:
            for drop in ([], extra[:1], extra[1:]):
                yield [e for k, e in enumerate(received) if k not in drop]

    def compare(self, p, r, items):
        df = r.evaluations
        if len(df) != len(items):
            return f"{len(df)} evaluations listed"
        names = p["scoring"].split(",") + (["length"] if p["regularize_length"] else [])
        if list(r.metrics) != names:
            return f"metrics {r.metrics}, expected {names}"
        best = {}
        t0 = min([e["start"] for e in items], default=None)
        for k, (e, (_, row)) in enumerate(zip(items, df.iterrows())):
            where = f"evaluation {k + 1}: "
            if str(row["id"]) != e["id"]:
                return where + f"id {row['id']}, expected {e['id']}"
            if int(row["n"]) != k:
                return where + f"numbered {row['n']}"
            if int(row["pid"]) != e["pid"]:
                return where + f"pid {row['pid']}, expected {e['pid']}"
            if norm(row["error"]) != norm(e["error"]):
                return where + f"error {row['error']!r}, expected {e['error']!r}"
            for m, v in zip(names, e["score"]):
                if not (row[m] == v or abs(row[m] - v) < 1e-9):
                    return where + f"{m} {row[m]}, expected {v}"
                best[m] = max(best.get(m, float("-inf")), v)
                if not (row[f"{m}_cummax"] == best[m] or abs(row[f"{m}_cummax"] - best[m]) < 1e-9):
                    return where + f"best {m} so far {row[f'{m}_cummax']}, expected {best[m]}"
            if abs(row["duration"].total_seconds() - e["wall"]) > 1e-5:
                return where + f"duration {row['duration']}, expected {e['wall']}s"
            if row["start"] != e["fstart"]:
                return where + f"start {row['start']}, expected {e['fstart']}"
            end = (e["fstart"] - t0).total_seconds() + e["wall"]
            if abs(row["relative_end"] - end) > 1e-3:
                return where + f"end {row['relative_end']}s after the start of the search, expected {end}s"
            if row["pipeline"] != e["pipe"]:
                return where + f"pipeline {row['pipeline']}, expected {e['pipe']}"
            ind = r.individuals.get(e["id"])
            if ind is None or ind.pipeline_str() != e["pipe"]:
                return where + f"individual {ind.pipeline_str() if ind else None}, expected {e['pipe']}"
        if len(items) and hasattr(type(r), "successful_evaluations"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = [str(i) for i in r.successful_evaluations["id"]]
            want = [e["id"] for e in items if succeeded(e["score"])]
            if got != want:
                return f"{len(got)} successful evaluations listed, {len(want)} were announced"
        return None

    def final(self, w, p, r, ev, marks, ok, problems):
        if r.search_method != SEARCH[p["search"]]:
            problems.append(("search", f"search method {r.search_method}, expected {SEARCH[p['search']]}"))
            return
        if not ok:
            return
        got = [(a, b) for a, b, _, _ in r.phases]
        want = [("preprocessing", "default"), ("search", SEARCH[p["search"]]), ("postprocess", POST[p["post"]])] * p["fits"]
        if got != want:
            problems.append(("phases", f"phases {got}, expected {want}"))
            return
        from .. import engine
        eps = 0.02 + stall_sum(w)
        for k, (t0, t1, n) in enumerate(marks):
            prev = t0
            for name, _, start, d in r.phases[3 * k:3 * k + 3]:
                a = start.timestamp() - engine.EPOCH
                if a < prev - eps or a + d > t1 + eps:
                    problems.append(("phases", f"fit {k + 1} took place from {t0:.2f}s to {t1:.2f}s, its phase {name} is said to start at {a:.2f}s and take {d:.2f}s"))
                    return
                prev = a + d
            total = sum(d for _, _, _, d in r.phases[3 * k:3 * k + 3])
            if t1 - t0 - total > 1.0 + eps:
                problems.append(("phases", f"fit {k + 1} took {t1 - t0:.2f}s, its phases {total:.2f}s"))
                return
        if r.incomplete:
            problems.append(("incomplete", "the report of a finished search is said to be incomplete"))

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


def s_rng(w):
    from .. import engine
    return engine.stream(w.env, "report")


CHECK = C20()
