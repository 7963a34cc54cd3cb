"""Scenario building blocks shared by the checks (public API of gama only, where possible)."""
import copy
import glob
import os
import random as _r

from . import engine, seams, stubs
from .world import Violation

RESERVED = dict(best=0.1, ens=0.3, none=0.0)  # share of the budget for post-processing, by default
SEARCHES = ("ea", "rs", "asha")


class Check:
    """A property: generator of cases, scenario, oracles."""

    id = None
    title = ""
    quick_runs = 200
    thorough_runs = 4000
    nontrivial = "at least one evaluation completed on a worker"
    assumptions = []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, w):
        raise NotImplementedError

    def stuck(self, w, kind, msg):
        """The simulation cannot go on (deadlock, step or time cap)."""
        w.violate("stuck", f"{kind}: {msg}")

    # minimisation: candidate simplifications of a case
    def shrink(self, case):
        yield from shrink_case(case)

    def directed(self, tier):
        """Hand-placed cases run before the random ones."""
        return []

    def post(self, results):
        """Checks across runs."""
        return []


SIMPLE = dict(p_stall=0.0, p_spurious_empty=0.0, p_lines=0.0, behaviours={}, mem=None, predict_time=0.0,
              p_transformer_fail=0.0, stub_uses_random=False, quality_levels=0, string_labels=False, labels=None, aim=None)


def shrink_case(case):
    fs = case.get("faults", [])
    if len(fs) > 1:
        for half in (fs[: len(fs) // 2], fs[len(fs) // 2:]):
            yield {**case, "faults": half}
    for i in range(len(fs)):
        yield {**case, "faults": fs[:i] + fs[i + 1:]}
    cfg = case["cfg"]
    for k, v in SIMPLE.items():
        if cfg.get(k) not in (None, v, {}, 0, 0.0, False):
            yield {**case, "cfg": {**cfg, k: v}}
    b = cfg.get("behaviours") or {}
    for k in b:
        yield {**case, "cfg": {**cfg, "behaviours": {x: y for x, y in b.items() if x != k}}}
    p = case.get("params", {})
    for k in ("n_jobs",):
        if p.get(k, 1) > 1:
            yield {**case, "params": {**p, k: 1}}
            yield {**case, "params": {**p, k: p[k] - 1}}
    if p.get("max_total_time", 0) > 10:
        yield {**case, "params": {**p, "max_total_time": max(10, p["max_total_time"] // 2)}}
    for k in ("jobs", "ops"):
        v = p.get(k)
        if isinstance(v, list) and len(v) > 1:
            h = len(v) // 2
            yield {**case, "params": {**p, k: v[:h]}}
            yield {**case, "params": {**p, k: v[h:]}}
            if len(v) <= 24:
                for i in range(len(v)):
                    yield {**case, "params": {**p, k: v[:i] + v[i + 1:]}}


# ------------------------------------------------------------------------------- generation
def base_cfg(rng, **kw):
    cfg = dict(
        jitter=rng.choice([0.2, 1.0, 3.0, 20.0]),
        p_stall=rng.choice([0.0, 0.0, 0.002, 0.02]),
        max_stall=rng.choice([0.05, 0.5, 2.0]),
        timer_latency=rng.choice([0.0, 0.005, 0.05]),
        feeder_latency=rng.choice([0.0005, 0.002, 0.02]),
        p_spurious_empty=rng.choice([0.0, 0.0, 0.05, 0.3]),
        spawn_latency=rng.choice([0.001, 0.02, 0.3]),
        p_lines=rng.choice([0.0, 0.3, 1.0]),
        dur=rng.choice([(0.01, 0.1), (0.02, 0.4), (0.02, 0.02), (0.05, 2.0), (0.2, 0.8)]),
        p_native=rng.choice([0.0, 0.3, 1.0]),
        n_rows=rng.choice([16, 20, 24, 30]),
        n_classes=rng.choice([2, 2, 3]),
        quality=rng.choice([(0.3, 0.98), (0.5, 0.9), (0.0, 1.0)]),
        quality_levels=rng.choice([0, 0, 3, 5]),
        pipe=rng.choice([65536, 65536, 8000, 1500]),  # the messages of the stubs are small
    )
    aims(rng, cfg, 0.25)
    cfg.update(kw)
    return cfg


def aims(rng, cfg, p):
    if rng.random() < p:  # the stop signal of the search comes in the code after a certain seam
        cfg["aim"] = dict(kinds=rng.choice(AIMS), n=rng.choice([1, 1, 2, 3, 6, 12]), lines=int(10 ** rng.uniform(0, 3.5)))


AIMS = [["put"], ["put"], ["recv", "get"], ["open"], ["write"], ["open", "write"], ["memory_info", "is_running"], ["sleep"], ["clock"], ["clock"], ["clock"]]
ALL_KINDS = ["raise", "raise_text", "memerr", "hang_py", "slow", "fail_score", "fail_late", "slow_late",
             "slow_native", "hang_native", "swallow"]


def behaviours(rng, kinds, total=0.4, most=3):
    ks = rng.sample(kinds, min(len(kinds), rng.randint(0, most)))
    t = rng.uniform(0.05, total)
    return {k: round(t / len(ks), 4) for k in ks} if ks else {}


def gama_params(rng, **kw):
    task = kw.pop("task", None) or rng.choice(["clf", "clf", "clf", "reg"])
    p = dict(
        task=task,
        search=rng.choice(SEARCHES),
        n_jobs=rng.choice([1, 1, 2, 3, 4]),
        max_total_time=rng.choice([10, 15, 20, 30, 45]),
        post=rng.choice(["best", "best", "ens"]),
        scoring=(rng.choice(["accuracy", "neg_log_loss", "neg_log_loss,accuracy", "roc_auc"]) if task == "clf"
                 else rng.choice(["neg_mean_squared_error", "r2"])),
        regularize_length=rng.random() < 0.8,
        space="clf" if task == "clf" else "reg",
        random_state=rng.choice([None, rng.randint(0, 10**6)]),
        store="logs",
        max_eval_time=rng.choice([None, None, 1, 3]),
        population_size=rng.choice([None, 3, 5, 10]),
        reduction_factor=rng.choice([None, 2, 3, 4]),
    )
    p.update(kw)
    return p


def tune(rng, cfg, p, evals=(12, 90)):
    """Choose evaluation times so that a run sees about so many evaluations."""
    n = rng.uniform(*evals)
    if p["search"] == "asha":  # the smallest subsample has to hold every class
        cfg["n_rows"] = max(cfg["n_rows"], 40)
    if "roc_auc" in p["scoring"]:  # binary only
        cfg["n_classes"] = 2
    mean = p["max_total_time"] * 0.8 * p["n_jobs"] / n / 5  # per fold
    k = rng.choice([1.0, 1.0, 1.5, 3.0, 6.0])
    cfg["dur"] = [round(mean / k, 5), round(mean * k ** 0.7, 5)]
    return cfg


def library_of(g):
    """The evaluation library of an instance."""
    from gama.utilities.evaluation_library import EvaluationLibrary

    found = [v for v in vars(g).values() if isinstance(v, EvaluationLibrary)]
    if len(found) != 1:
        raise engine.HarnessGap(f"{len(found)} evaluation libraries in the instance")
    return found[0]


def warm(g, n):
    """n start candidates made by the instance's own operators."""
    return [g._operator_set.individual() for _ in range(n)]


def make_search(p):
    from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch

    if p["search"] == "ea":
        return AsyncEA(population_size=p.get("population_size"), max_n_evaluations=p.get("max_n_evaluations"),
                       restart_callback=p.get("_restart"))
    if p["search"] == "rs":
        return RandomSearch()
    return AsynchronousSuccessiveHalving(
        reduction_factor=p.get("reduction_factor"), minimum_resource=p.get("minimum_resource"),
        maximum_resource=p.get("maximum_resource"), minimum_early_stopping_rate=p.get("early_rate"))


def make_post(p):
    from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing, NoPostProcessing

    if p["post"] == "none":
        return NoPostProcessing() if p.get("time_fraction") is None else NoPostProcessing(p["time_fraction"])
    if p["post"] == "best":
        return BestFitPostProcessing() if p.get("time_fraction") is None else BestFitPostProcessing(p["time_fraction"])
    kw = {}
    if p.get("time_fraction") is not None:
        kw["time_fraction"] = p["time_fraction"]
    return EnsemblePostProcessing(ensemble_size=p.get("ensemble_size", 5), max_models=p.get("max_models", 10),
                                  hillclimb_size=p.get("hillclimb_size", 10_000), **kw)


def make_gama(w, p, search=None, post=None, out=None, **over):
    from gama import GamaClassifier, GamaRegressor

    cls = GamaClassifier if p.get("task", "clf") == "clf" else GamaRegressor
    w.n_classes = w.cfg.get("n_classes", 2)
    sc = p["scoring"]
    kw = dict(
        search_space=stubs.space(p["space"]), scoring=tuple(sc.split(",")) if "," in sc else sc,
        regularize_length=p["regularize_length"], max_pipeline_length=p.get("max_pipeline_length"),
        random_state=p["random_state"], max_total_time=p["max_total_time"], max_eval_time=p["max_eval_time"],
        n_jobs=p["n_jobs"], max_memory_mb=p.get("max_memory_mb"), verbosity=50,
        search=search or make_search(p), post_processing=post or make_post(p),
        output_directory=out if out is not None else p.get("out", "out"), store=p["store"])
    kw.update(over)
    return cls(**kw)


# ------------------------------------------------------------------------------- observation
class Watch:
    """Records what the search submits to the pool and what it gets back (public methods)."""

    def __init__(self, w):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator

        self.w = w
        self.log = []  # ("submit", t, fid, individual-id, pipeline, args, kwargs) | ("done", t, fid, ...)
        self.on_submit = self.on_done = None
        self.pools = []
        sub, wait = AsyncEvaluator.submit, AsyncEvaluator.wait_next
        watch = self

        def submit(pool, fn, *args, **kwargs):
            if pool not in watch.pools:
                watch.pools.append(pool)
            inds = [a for a in args if hasattr(a, "main_node")]
            ind = inds[0] if inds else None
            with w.quiet():
                rec = dict(op="submit", t=w.sim.now, pool=watch.pools.index(pool), args=args, kwargs=dict(kwargs),
                           ind=ind, iid=str(ind._id) if ind is not None else None,
                           pipe=ind.pipeline_str() if ind is not None else None, fid=None)
            watch.log.append(rec)
            fut = sub(pool, fn, *args, **kwargs)
            rec["fid"] = str(fut.id)
            return fut

        def wait_next(pool, *a, **k):
            fut = wait(pool, *a, **k)
            rec = dict(op="done", t=w.sim.now, pool=watch.pools.index(pool) if pool in watch.pools else -1,
                       fid=str(fut.id), fut=fut)
            watch.log.append(rec)
            if watch.on_done is not None:
                with w.quiet():
                    watch.on_done(rec)
            return fut

        AsyncEvaluator.submit, AsyncEvaluator.wait_next = submit, wait_next

    def submits(self, pool=None):
        return [r for r in self.log if r["op"] == "submit" and (pool is None or r["pool"] == pool)]

    def dones(self, pool=None):
        return [r for r in self.log if r["op"] == "done" and (pool is None or r["pool"] == pool)]


class Events:
    """A subscriber that takes a snapshot of every announced evaluation."""

    def __init__(self, w, g=None, keep=False):
        self.w, self.items, self.keep = w, [], keep
        if g is not None:
            g.evaluation_completed(self)

    def __call__(self, e):
        with self.w.quiet():
            self.take(e)

    def take(self, e):
        f = e.individual.fitness
        rec = dict(
            t=self.w.sim.now, id=str(e.individual._id), pid=e.pid, score=tuple(e.score), error=e.error,
            pipe=e.individual.pipeline_str(), values=tuple(f.values) if f else None,
            start=e.start_time, duration=e.duration, fstart=f.start_time if f else None,
            wall=f.wallclock_time if f else None, meta=dict(e.individual.meta),
            length=len(e.individual.primitives))
        if self.keep:
            rec["eval"] = e
            rec["estimators"] = e.estimators
            rec["predictions"] = e.predictions
        rec["ind"] = e.individual
        self.items.append(rec)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    @property
    def ok(self):
        return [r for r in self.items if r["error"] is None]


def fit(w, g, X, y, **kw):
    """Returns (outcome, exception): what happened to fit."""
    w.set_phase("fit")
    t0 = w.sim.now
    try:
        g.fit(X, y, **kw)
        exc = None
    except engine.HarnessGap:
        raise
    except Violation:
        raise
    except BaseException as e:  # noqa
        exc = e
    w.fit_time = w.sim.now - t0
    w.main.kbd = w.main.aim = None
    if w.main.tracing:
        w.sim._untrace(w.main)
    w.main.async_exc = None
    w.set_phase("after")
    return exc


def tb(exc, n=6):
    import traceback
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-n:])[-1500:]


def short(exc):
    return f"{type(exc).__name__}: {str(exc)[:200]}"


def leftovers(w):
    """Worker processes that are still there (running or zombie)."""
    return [p for p in w.sim.procs.values() if p.parent is not None and p.state != "reaped"]


def unsent(w):
    """Messages of the main process that keep the program from ending: nobody is left to receive them."""
    try:
        settle(w, 1.0)
    except KeyboardInterrupt:  # it arrived too late
        pass
    return [m for q in w.sim.__dict__.get("queues", []) if w.main.pid not in q.no_join for m in q.stalled
            if m.owner is w.main and not m.cancelled]


def settle(w, seconds=1.0):
    w.sim.step("settle", exact=seconds)


# ------------------------------------------------------------------------------- facts about a run
def share(p):
    """Bounds on the part of the budget the search may use."""
    tf = p.get("time_fraction")
    if tf is None:
        tf = RESERVED[p["post"]]
    hi = (1 - tf) * p["max_total_time"]
    return hi - 1.2, hi


def n_metrics(p):
    return len(p["scoring"].split(","))


def eval_limit(p):
    if p["search"] == "asha":
        return None
    if p["max_eval_time"] is None:
        return max(1e-3, round(0.1 * p["max_total_time"]))
    return min(p["max_eval_time"], p["max_total_time"])


def window(ev):
    """Simulated time interval of an evaluation record (no clock jumps)."""
    t0 = ev.start_time.timestamp() - engine.EPOCH
    return t0, t0 + ev.duration


def stall_sum(w, t0=0.0, t1=1e18):
    return sum(d for q in w.sim.procs.values() for a, d in q.stalls if t0 - d <= a <= t1)


def succeeded(score):
    return all(v > float("-inf") for v in score)


def jobs(w):
    """pid -> [[t0, t1], ...]: what the workers worked on, from the queues."""
    out = {}
    for t, k, d in w.sim.history:
        if k == "job_start":
            out.setdefault(d["pid"], []).append([t, float("inf")])
        elif k == "job_end" and out.get(d["pid"]):
            out[d["pid"]][-1][1] = t
    return out


def job_of(js, pid, t, eps=1e-5):
    """The job worker `pid` was working on at time t."""
    for a, b in js.get(pid, []):
        if a - eps <= t <= b + eps:
            return a, b
    return None


# ------------------------------------------------------------------------------- cheap evaluations
def cheap_evaluate(pipeline, x=None, y_train=None, timeout=1e6, metrics=(), cv=5, subsample=None, **_):
    """Stands in for cross-validation where only the search around it matters: time, failure, score."""
    import stopit

    w = stubs.WORLD
    s = w.sim
    me = s.me()
    steps = [e for _, e in pipeline.steps if type(e).__module__ == stubs.__name__]
    key = ">".join(stubs.key_of(e) for e in steps)
    s.record("stub_fit", pid=me.pid, key=key, n=len(x))
    n = len(metrics)
    failed = (float("-inf"),) * n
    kind = w.behaviour(key)
    lo, hi = w.cfg.get("dur", (0.02, 0.4))
    u = engine.hash01(w.cfg.get("timing_seed", w.env), "cheap", key, repr(subsample))
    d = 5 * lo * (hi / lo) ** u
    with stopit.ThreadingTimeout(max(timeout, 1e-3)) as c:
        try:
            if kind != "ok":
                s.fire("stub_" + kind)
            if kind == "memerr":
                raise MemoryError()
            if kind in ("raise", "raise_text", "fail_score", "fail_late"):
                s.compute(d * 0.5)
                raise ValueError("stub failure")
            if kind in ("hang_py", "slow_late"):
                while True:
                    s.compute(1e4)
            if kind in ("hang_native", "slow_native"):
                s.native(1e5 if kind == "hang_native" else w.cfg.get("native_dur", 8.0))
            s.compute(d * (25 if kind == "slow" else 1))
        except stopit.TimeoutException:
            raise
        except Exception as e:
            return None, failed, None, e
    if c.state == c.INTERRUPTED:
        raise stopit.utils.TimeoutException()
    if not c:
        return None, failed, None, stopit.TimeoutException()
    q = w.quality(key)
    if subsample is not None:
        q += 0.1 * (engine.hash01(w.env, "sub", key, repr(subsample)) - 0.5)
    return None, tuple(q - 0.01 * i for i in range(n)), [], None


def cheapen(w):
    """Use cheap evaluations from here on."""
    import gama.genetic_programming.compilers.scikitlearn as m

    if hasattr(m, "evaluate_pipeline"):
        m.evaluate_pipeline = cheap_evaluate
        w.sim.fire("cheap_evaluations")


# ------------------------------------------------------------------------------- losses and memory
def lost_tags(w):
    """Calls (by tag, from "exec" records) that dead workers took and never delivered; number of unknown ones."""
    ex, st, en, un = {}, {}, {}, {}
    for _, k, d in w.sim.history:
        if k == "exec":
            ex.setdefault(d["pid"], []).append(d["tag"])
        elif k == "job_start":
            st[d["pid"]] = st.get(d["pid"], 0) + 1
        elif k == "job_end":
            en[d["pid"]] = en.get(d["pid"], 0) + 1
        elif k == "message_lost":
            un[d["pid"]] = un.get(d["pid"], 0) + d["n"]
    lost, unknown = set(), 0
    for q in w.sim.procs.values():
        if q.parent is None or q.alive:
            continue
        e = ex.get(q.pid, [])
        lost |= set(e[max(0, en.get(q.pid, 0) - un.get(q.pid, 0)):])
        unknown += max(0, st.get(q.pid, 0) - len(e))
    return lost, unknown


def rss_range(q, t0, t1):
    """Least and largest memory (MB) of a process in [t0, t1]."""
    vals = []
    cur = 0.0
    for t, v in q.rss_log:
        if t <= t0:
            cur = v
        elif t <= t1:
            vals.append(v)
    vals.append(cur)
    return (q.base_rss + min(vals)) / 2**20, (q.base_rss + max(vals)) / 2**20


def alive_in(w, t0, t1):
    """Workers alive at some moment of [t0, t1]."""
    return [q for q in w.sim.procs.values() if q.parent is not None and q.spawned_at <= t1 and
            (q.ended_at is None or q.ended_at >= t0)]


# ------------------------------------------------------------------------------- files
def tree(root):
    """path -> content (None for directories) of everything under root; without simulated faults."""
    import hashlib

    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        for x in dirs:
            out[os.path.normpath(os.path.join(rel, x))] = None
        for x in files:
            with seams.R["open"](os.path.join(d, x), "rb") as fh:
                out[os.path.normpath(os.path.join(rel, x))] = hashlib.sha256(fh.read()).hexdigest()[:16]
    return out


def tree_diff(a, b):
    ch = [("removed", k) for k in a if k not in b] + [("created", k) for k in b if k not in a] + \
         [("changed", k) for k in a if k in b and a[k] != b[k]]
    return sorted(ch)


def ens_models(m):
    """Selected evaluations of an ensemble {id: (evaluation, weight)}, or None if the object does not show them."""
    if hasattr(m, "_models"):
        return m._models
    for v in vars(m).values():
        if isinstance(v, dict) and v and all(isinstance(x, tuple) and len(x) == 2 and hasattr(x[0], "individual") for x in v.values()):
            return v
    return None


def ens_fitted(m):
    """Fitted models of an ensemble [(estimator, weight)], or None if the object does not show them."""
    if hasattr(m, "_fit_models"):
        return m._fit_models
    for v in vars(m).values():
        if isinstance(v, (list, tuple)) and v and all(isinstance(x, tuple) and len(x) == 2 and hasattr(x[0], "steps") for x in v):
            return v
    return None
