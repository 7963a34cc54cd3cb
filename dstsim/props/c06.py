"""C06: the evaluation log on disk is complete, exact and crash-safe."""
import csv
import io
import os

from ..lib import Check, base_cfg, behaviours, fit, gama_params, make_gama, share, short, tune, warm
from .. import seams

KINDS = ["raise", "raise_text", "raise_text", "memerr", "fail_score", "hang_py", "slow"]
TIME = "%Y-%m-%d %H:%M:%S,%f"


def read(path):
    with seams.R["open"](path, newline="", encoding="utf-8", errors="surrogateescape") as fh:
        return fh.read()


def rows(text):
    return list(csv.reader(io.StringIO(text, newline=""), delimiter=";"))


def expected(e, search):
    """What the record of an evaluation has to say."""
    f = e.individual.fitness
    x = dict(id=str(e.individual._id), pid=str(e.pid), t_start=f.start_time.strftime(TIME),
             t_wallclock=str(f.wallclock_time), t_process=str(f.process_time), score=str(f.values),
             pipeline=e.individual.pipeline_str(), error=str(e.error))
    m = e.individual.meta
    if search == "ea":
        par = [str(v) for v in m.get("parents", [])]
        x.update(parent0=par[0] if par else "", parent1=par[1] if len(par) > 1 else "", origin=str(m.get("origin", "unknown")))
    if search == "asha":
        x.update(rung=str(m.get("rung", "unknown")), subsample=str(m.get("subsample", "unknown")))
    x["_score"] = tuple(f.values)
    x["_dur"] = f.wallclock_time
    return x


def same(header, row, want):
    """None, or the first difference between a record and the evaluation."""
    if len(row) != len(header):
        return f"{len(row)} fields instead of {len(header)}"
    rec = dict(zip(header, row))
    for k, v in want.items():
        if k.startswith("_"):
            continue
        if k not in rec:
            return f"no field {k}"
        if rec[k] != v:
            if k in ("t_wallclock", "t_process"):
                try:
                    if abs(float(rec[k]) - float(v)) < 1e-6:
                        continue
                except ValueError:
                    pass
            if k == "score":
                try:
                    if tuple(float(a) for a in rec[k].strip("()").split(",") if a.strip()) == tuple(map(float, want["_score"])):
                        continue
                except ValueError:
                    pass
            return f"{k} is {rec[k]!r:.300}, expected {v!r:.300}"
    return None


class C06(Check):
    id = "C06"
    quick_runs = 700
    thorough_runs = 30000
    nontrivial = "at least two evaluations were announced and compared with the file"
    assumptions = ["a failed write leaves no bytes behind (torn writes happen only together with a crash)",
                   "what was handed to the operating system survives the death of the process"]

    def gen(self, rng, i, tier):
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.9))
        p = gama_params(rng, max_total_time=rng.choice([10, 12, 20]), store=rng.choice(["logs", "logs", "all"]))
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, None, 30])
        p["warm"] = rng.choice([None, None, 3, 8])
        p["fits"] = 1
        if rng.random() < 0.15:
            p.update(fits=2, store=rng.choice(["logs", "all", "models", "nothing"]), max_total_time=10)
        tune(rng, cfg, p, (6, 45))
        T = p["max_total_time"]
        faults = []
        u = rng.random()
        if u < 0.25:
            faults.append(dict(kind="crash", t=rng.uniform(0.05, T)))
        elif u < 0.4:
            faults.append(dict(kind="crash", seam=rng.choice(["open", "write", "poll", "put"]), n=rng.randint(1, 200)))
        elif u < 0.6:
            faults.append(dict(kind="crash_write", path="evaluations.log", n=rng.randint(1, 25), torn=rng.choice([0.0, 0.3, 0.7, 0.99, 1.0])))
        elif u < 0.8:
            for _ in range(rng.randint(1, 3)):
                faults.append(dict(kind="io_error", op=rng.choice(["write", "open"]), path="evaluations.log", n=rng.randint(2, 20), count=rng.choice([1, 1, 3])))
        elif u < 0.9:
            faults.append(dict(kind="sigint", t=rng.uniform(0.2, T)))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        X, y = w.data()
        w.exp, w.lost, w.path = [], 0, None
        w.crash_hook = lambda: self.after_crash(w)
        g = make_gama(w, p)
        w.path = path = os.path.join(g.output_directory, "evaluations.log")
        state = dict(io=0)

        def cb(e):
            io_now = s.fired.get("write_error", 0) + s.fired.get("open_error", 0)
            want = expected(e, p["search"])
            rs = rows(read(path)) if os.path.exists(path) else []
            if not rs:
                w.violate("header", f"no records on disk when evaluation {len(w.exp) + 1} was announced")
                raise KeyboardInterrupt
            header, recs = rs[0], rs[1:]
            n = len(w.exp)
            if io_now > state["io"]:
                state["io"] = io_now
                w.lost += 1
                if len(recs) == n:
                    return  # this record was being written when the disk failed
            w.exp.append(want)
            w.nontrivial = len(w.exp) >= 2
            if len(recs) != n + 1:
                w.violate("records", f"{len(recs)} records on disk when evaluation {n + 1} was announced (lost to disk errors: {w.lost})")
            elif (d := same(header, recs[-1], want)):
                w.violate("record", f"record of evaluation {n + 1}: {d}; error {want['error']!r:.200}")
            if w.violations:
                from ..world import Violation
                raise KeyboardInterrupt

        def quietly(e):
            with w.quiet():
                cb(e)

        g.evaluation_completed(quietly)
        if not os.path.exists(path) or not rows(read(path)):
            w.violate("header", "no header on disk after construction")
            return
        for k in range(p.get("fits", 1)):
            exc = fit(w, g, X, y, warm_start=warm(g, p["warm"]) if p["warm"] else None)
            if w.violations:
                break
            if exc is not None or p["store"] in ("logs", "all"):
                self.compare(w, read(path), "after fit")
                if not w.violations and len(rows(read(path))) == len(w.exp) + 2:
                    w.exp.append(None)  # written, but not announced any more
            else:
                w.exp = []
            if w.violations:
                break
            if not any(f["kind"] == "sigint" for f in w.faults) and w.fit_time < share(p)[0] and p.get("max_n_evaluations") is None:
                w.violate("search_stopped", f"the search ended after {w.fit_time:.2f}s ({short(exc) if exc else 'returned'})")
        w.nontrivial = w.nontrivial or len(w.exp) >= 2
        w.probes["records"] = len(w.exp)

    def compare(self, w, text, when, torn=False):
        rs = rows(text)
        exp = w.exp
        if not rs:
            if not torn or exp:
                w.violate("records", f"{when}: empty file, {len(exp)} evaluations announced")
            return
        header, recs = rs[0], rs[1:]
        if len(header) < 8 and (exp or not torn):
            w.violate("header", f"{when}: header is {header}")
            return
        if len(recs) < len(exp) or len(recs) > len(exp) + 1:
            w.violate("records", f"{when}: {len(recs)} records for {len(exp)} announced evaluations")
            return
        for i, e in enumerate(exp):
            d = same(header, recs[i], e) if e else None
            if d:
                w.violate("record", f"{when}: record {i + 1} of {len(recs)}: {d}")
                return
        if not torn and len(recs) > len(exp) and len(recs[-1]) != len(header):
            w.violate("record", f"{when}: incomplete last record {recs[-1]}")

    def after_crash(self, w):
        w.nontrivial = len(getattr(w, "exp", [])) >= 2
        w.probes["crashes"] = 1
        path = w.path or os.path.join(w.scratch, w.params.get("out", "out"), "evaluations.log")
        if not os.path.exists(path):
            if w.path is not None:
                w.violate("records", "after the crash: no evaluations.log")
            return
        self.compare(w, read(path), f"after a {w.crashed} with {len(w.exp)} evaluations announced", torn=True)


CHECK = C06()
