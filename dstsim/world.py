"""One simulated run of GAMA: environment (data, stub behaviour, faults) and observation."""
import contextlib
import errno
import fnmatch
import os
import sys

import numpy as np

from . import engine, seams, stubs
from .engine import hash01


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


TEXTS = ["a;b", "first line\nsecond line", 'say "x;y"\nand go', "tab\tand\r\nreturn", "", "x" * 20000,
         "caf\u00e9 \u2713 ; \n\n", '"', "'; '", ";;;\n;;;", "None"]


class StubError(Exception):
    pass


ERRORS = [ValueError, ValueError, KeyError, IndexError, AttributeError, OSError, AssertionError, ZeroDivisionError, ImportError,
          NotImplementedError, RuntimeError, UserWarning, TypeError, StubError, np.linalg.LinAlgError, ConnectionResetError,
          RecursionError, EOFError]


class RefusedError(Exception):
    """A component does not accept its hyperparameters."""


class World:
    def __init__(self, seed, cfg, faults, scratch):
        self.seed, self.cfg, self.faults, self.scratch = seed, cfg, list(faults), scratch
        self.env = cfg.get("env_seed", seed)
        self.n_classes = cfg.get("n_classes", 2)
        self.violations = []
        self.fits = []  # (t, pid, key, rows-hash)
        self.final_fits = []
        self.sim = None
        self.main = None
        self.crashed = None
        self.crash_hook = None
        self.phase = "init"
        self.io_count = {}

    # ------------------------------------------------------------------ wiring
    @contextlib.contextmanager
    def quiet(self):
        """Observation by the harness: what interrupts the program does not hit it."""
        me = self.sim.me()
        if me is None:
            yield
            return
        me.quiet += 1
        try:
            yield
        finally:
            me.quiet -= 1

    def attach(self, sim):
        self.sim = sim
        sim.io_fault = self.io_fault
        sim.pick_lines = self.pick_lines
        sim.crash_now = self.crash
        sim.spawn_fault = self.spawn_fault
        self.main = seams.attach(sim, self.scratch)
        stubs.WORLD = self
        self.seam_count = {}
        self.lines_rng = engine.stream(self.seed, "lines")
        self.nspawn = 0
        sim.seam_hooks.append(self.on_seam)
        self.seam_faults = [f for f in self.faults if "seam" in f]
        for f in self.faults:
            if "t" in f and "seam" not in f:
                sim.call_at(f["t"], lambda f=f: self.inject(f))

    def violate(self, kind, msg):
        self.violations.append((kind, msg))

    def pid(self):
        me = self.sim.me()
        return me.pid if me else 0

    def workers(self):
        return [p for p in self.sim.procs.values() if p.parent is not None and p.alive]

    # ------------------------------------------------------------------ faults
    def on_seam(self, kind, proc):
        if proc is not self.main or self.paused:
            return
        c = self.seam_count
        c[kind] = c.get(kind, 0) + 1
        c["*"] = c.get("*", 0) + 1
        for f in self.seam_faults:
            if not f.get("done") and f.get("phase", self.phase) == self.phase and \
                    f["seam"] == kind and f["n"] == self._phase_count(kind):
                f["done"] = True
                self.inject(f)

    def _phase_count(self, kind):
        return self.seam_count.get(kind, 0) - self.phase_base.get(kind, 0)

    phase_base = {}

    def set_phase(self, name):
        self.phase = name
        self.phase_base = dict(self.seam_count)

    def inject(self, f):
        s, k = self.sim, f["kind"]
        if s.over:
            return
        if k == "kill_sender":  # the next worker that sends a (long) result is killed halfway
            s.kill_sender = True
        elif k == "kill_worker":
            w = self.workers()
            if f.get("holding"):  # an idle worker, just as it looks into its queue
                w = [p for p in w if p.job is None and p.__dict__.get("polled")]
                if w:
                    q = w[f.get("idx", 0) % len(w)].polled
                    q[f.get("q", -1) % len(q)].held = True
                    s.fire("died_holding_lock")
            if w:
                p = w[f.get("idx", 0) % len(w)]
                s.fire("worker_killed")
                s.record("fault_kill", pid=p.pid, busy=p.job is not None)
                s.kill(p, f.get("sig", 9), by="fault")
        elif k == "sigint":
            if f.get("group"):  # terminal Ctrl-C: the whole foreground process group
                for p in self.workers():
                    s.fire("worker_sigint")
                    s.kill(p, 2, by="sigint")
            s.keyboard_interrupt(self.main, f.get("lines", 0))
            s.record("fault_sigint", phase=self.phase)
        elif k == "clock_jump":
            s.fire("clock_jump")
            s.wall_offset += f["delta"]
        elif k == "main_rss":
            s.fire("main_rss")
            self.main.extra_rss = f["mb"] * 2**20
        elif k == "stall_worker":
            w = self.workers()
            if w:
                p = w[f.get("idx", 0) % len(w)]
                if p.wake is not None:
                    s.fire("worker_stalled")
                    p.wake.cancelled = True
                    p.stalls.append((s.now, f["dt"]))
                    p.wake = s.schedule(max(p.wake.t, s.now + f["dt"]), proc=p)
        elif k == "crash":
            self.crash("crash")
        else:
            raise AssertionError(k)

    def crash(self, why):
        """The main process dies here: only what is on disk survives."""
        self.sim.fire("main_crash")
        self.crashed = why
        self.sim.over = True
        self.sim.record("crash", why=why)
        hook = self.crash_hook
        self.finish_run(hook)
        os._exit(0)

    finish_run = None

    paused = False  # the oracle is looking: no faults

    def io_fault(self, op, path):
        hit = None
        if self.paused:
            return None
        for i, f in enumerate(self.faults):
            if f["kind"] not in ("io_error", "crash_write") or f.get("op", "write") != op:
                continue
            if not fnmatch.fnmatch(os.path.basename(path), f.get("path", "*")):
                continue
            n = self.io_count[i] = self.io_count.get(i, 0) + 1
            if f["n"] <= n < f["n"] + f.get("count", 1):
                hit = f
        return hit

    def spawn_fault(self):
        self.nspawn += 1
        for f in self.faults:
            if f["kind"] == "spawn_error" and f["n"] == self.nspawn:
                return f.get("errno", errno.EAGAIN)
        return None

    def pick_lines(self, proc):
        p = self.cfg.get("p_lines", 0.0)
        if p and self.lines_rng.random() < p:
            return 1 + int(self.lines_rng.random() ** 2 * 60)
        return 0

    # ------------------------------------------------------------------ stub behaviour
    def quality(self, key):
        lo, hi = self.cfg.get("quality", (0.3, 0.98))
        levels = self.cfg.get("quality_levels", 0)
        u = hash01(self.env, "quality", key)
        if levels:
            u = int(u * levels) / max(levels - 1, 1)
        return lo + (hi - lo) * min(u, 1.0)

    def behaviour(self, key):
        u = hash01(self.env, "kind", key)
        for kind, p in sorted(self.cfg.get("behaviours", {}).items()):
            if u < p:
                return kind
            u -= p
        return "ok"

    def applies(self, key, train_hash):
        """Does the special behaviour show on this fold?"""
        if hash01(self.env, "mode", key) < self.cfg.get("p_always", 0.5):
            return True
        return hash01(self.env, "fold", key, train_hash) < 0.35

    def duration(self, key, rows):
        lo, hi = self.cfg.get("dur", (0.02, 0.4))
        u = hash01(self.cfg.get("timing_seed", self.env), "dur", key)
        v = hash01(self.cfg.get("timing_seed", self.env), "dur", key, len(rows), int(rows[0]))
        d = lo * (hi / lo) ** u
        return d * (0.5 + v)

    def on_create(self, cls, params):
        """A component may refuse its hyperparameters (only some do, and always the same ones)."""
        p = self.cfg.get("p_refuse", 0.0)
        s = self.sim
        if p and s.me() is not None and s.me() is not self.main:
            key = f"{cls.__name__}({sorted(params.items())})"
            if hash01(self.env, "refuse", key) < p:
                s.fire("stub_refused")
                s.record("stub_refused", pid=s.me().pid, key=key)
                raise RefusedError(f"refused {key}")

    def on_transformer(self, est, X):
        s = self.sim
        me = s.me()
        if me is None or me is self.main:
            return
        key = stubs.key_of(est)
        if hash01(self.env, "tfail", key) < self.cfg.get("p_transformer_fail", 0.0):
            self.bad("transformer", key, f"transformer {type(est).__name__} failed")
            raise RuntimeError(f"transformer {type(est).__name__} failed")

    def on_fit(self, est, rows, X):
        s = self.sim
        me = s.me()
        key = stubs.key_of(est)
        if me is None:
            return
        th = est.train_hash_
        if me is self.main:
            self.final_fits.append((key, tuple(sorted(int(r) for r in rows))))
            s.compute(self.cfg.get("final_fit_time", 0.5), "final_fit")
            return
        s.record("stub_fit", pid=me.pid, key=key, n=len(rows))
        kind = self.behaviour(key)
        if kind != "ok" and not self.applies(key, th):
            kind = "ok"
        if kind in ("crash", "exit"):
            self.ncrash = getattr(self, "ncrash", 0) + 1
            if self.ncrash > self.cfg.get("max_crashes", 10**9):
                kind = "ok"
        d = self.duration(key, rows)
        est.kind_ = kind
        use_np = self.cfg.get("stub_uses_random")
        if use_np:
            est.noise_ = float(np.random.rand()) + __import__("random").random()
        mem = self.cfg.get("mem")
        if mem:
            lo, hi = mem
            me.extra_rss = (lo + (hi - lo) * hash01(self.env, "mem", key) ** 3) * 2**20
        try:
            if kind != "ok":
                s.fire("stub_" + kind)
            if kind == "raise":
                s.compute(d * 0.3)
                self.bad(kind, key, "stub failure in fit", self.error(key))
                raise self.error(key)("stub failure in fit")
            if kind == "raise_text":
                text = TEXTS[int(hash01(self.env, "text", key) * len(TEXTS))]
                self.bad(kind, key, text)
                raise ValueError(text)
            if kind == "memerr":
                s.compute(d * 0.3)
                self.bad(kind, key, "")
                raise MemoryError()
            if kind == "hang_py":
                self.hang(kind, key)
            elif kind == "hang_native":
                self.bad(kind, key)
                s.native(1e5)
            elif kind == "slow_native":
                s.native(self.cfg.get("native_dur", 8.0) * (0.3 + hash01(self.env, "nd", key)))
            elif kind == "slow":
                s.compute(d * 25)
            elif kind == "swallow":
                try:
                    s.compute(self.cfg.get("swallow_dur", 20.0))
                except Exception:
                    pass
            elif kind == "crash":
                s.compute(d * 0.5)
                s.fire("worker_crash")
                s.kill(me, 11, by="self")
                s._dispatch(me)  # never returns
            elif kind == "exit":
                s.compute(d * 0.5)
                raise SystemExit(3)
            else:
                # native part first, then interruptible
                if hash01(self.env, "native", key) < self.cfg.get("p_native", 0.3):
                    s.native(d)
                else:
                    s.compute(d)
        finally:
            if mem:
                me.extra_rss = 0.0

    def error(self, key):
        """The class of the error a failing component raises."""
        return ERRORS[int(hash01(self.env, "error", key) * len(ERRORS))]

    def hang(self, kind, key):
        self.bad(kind, key)
        try:
            while True:
                self.sim.compute(1e5)
        except Exception:
            self.sim.record("stub_cut", pid=self.sim.me().pid, key=key)
            raise

    def bad(self, kind, key, text=None, cls=None):
        """A stub is about to fail with `text`, or to hang (None)."""
        self.sim.record("stub_bad", pid=self.sim.me().pid, bad=kind, key=key, text=text, cls=cls.__name__ if cls else None)

    on_predict_hook = None
    nfits = 0

    def on_predict(self, est, X):
        s = self.sim
        me = s.me()
        if me is None:
            return
        if self.on_predict_hook is not None:
            self.on_predict_hook(est, X)
        est.n_predict_ += 1
        if me is self.main:
            return
        kind = getattr(est, "kind_", "ok")
        if kind == "fail_score":
            s.fire("stub_fail_score_hit")
            self.bad(kind, stubs.key_of(est), "stub failure in predict", self.error(stubs.key_of(est)))
            raise self.error(stubs.key_of(est))("stub failure in predict")
        if kind == "fail_late" and est.n_predict_ >= 2:
            s.fire("stub_fail_late_hit")
            self.bad(kind, stubs.key_of(est), "stub failure in second predict", self.error(stubs.key_of(est)))
            raise self.error(stubs.key_of(est))("stub failure in second predict")
        if kind == "slow_late" and est.n_predict_ >= 2:
            s.fire("stub_slow_late_hit")
            self.hang(kind, stubs.key_of(est))
        if self.cfg.get("predict_time"):
            s.compute(self.cfg["predict_time"])

    # ------------------------------------------------------------------ data
    LABELS = dict(gaps=[-3, 1, 7, 8], ones=[1, 2, 3, 4], digits=["10", "2", "30", "4"], words=["no", "n\u00f6", "oui", "yes"])

    def label(self, code):
        """The label (as given by the user) of a class; the order of labels is the order of codes."""
        if self.cfg.get("string_labels"):
            return f"class{int(code)}"
        kind = self.cfg.get("labels")
        return self.LABELS[kind][int(code)] if kind else int(code)

    def targets(self, codes):
        """What models are to be trained on: labels, or codes if labels are text."""
        if isinstance(self.label(0), str):
            return np.asarray(codes).astype(int)
        return np.array([self.label(c) for c in codes])

    def data(self, n=None, seed=None, kind=None):
        import pandas as pd

        n = n or self.cfg.get("n_rows", 24)
        rng = engine.stream(seed if seed is not None else self.env, "data")
        reg = (kind or self.cfg.get("task", "clf")) == "reg"
        k = self.n_classes
        lab = [rng.uniform(0, 10) if reg else i % k for i in range(n)]
        rng.shuffle(lab)
        base = self.cfg.get("row_base", 0)
        X = pd.DataFrame({"row": [float(base + i) for i in range(n)], "lab": [float(v) for v in lab],
                          "f": [rng.uniform(0, 1) for _ in range(n)]})
        y = pd.Series(lab, name="y") if reg else pd.Series([self.label(v) for v in lab], name="y")
        extra = self.cfg.get("unlabeled", 0)
        if extra:  # rows without a target value, to be ignored by gama
            at = sorted(rng.sample(range(n + extra), extra))
            rows, ys, k = [], [], 0
            for i in range(n + extra):
                if i in at:
                    rows.append([-1.0 - i, 0.0, 0.5])
                    ys.append(None)
                else:
                    rows.append(list(X.iloc[k]))
                    ys.append(y.iloc[k])
                    k += 1
            X = pd.DataFrame(rows, columns=X.columns)
            y = pd.Series(ys, name="y", dtype=object if isinstance(y.iloc[0], str) else float)
        if self.cfg.get("index") == "shuffled":
            idx = list(range(10, 10 + len(X)))
            rng.shuffle(idx)
            X.index = idx
            y.index = idx
        elif self.cfg.get("index") == "dates":
            X.index = pd.date_range("2020-01-01", periods=len(X))
            y.index = X.index
        return X, y
