"""Deterministic discrete-event simulator for programs built from OS processes.

Every simulated process is a Python thread, but only the one holding the baton runs; the baton
moves only inside `Sim.step` and friends, and which process gets it next is decided by the event
heap, whose times come from seeded random streams.  One (config, faults, seed) is one execution.
"""
import _thread
import dis
import hashlib
import heapq
import os
import random as _random
import sys
import threading
import time as _time

REAL_TIME = _time.time
REAL_MONO = _time.monotonic
_Random = _random.Random

EPOCH = 1_700_000_000.0


AIM = 0.5  # s, a stop signal is held back for at most that long


class HarnessGap(BaseException):
    """The code under test used something the simulator does not model."""


class RunOver(BaseException):
    """Unwinds nothing in practice: the run reports and the OS process exits."""


def stream(seed, *names):
    h = hashlib.sha256(repr((seed,) + names).encode()).digest()
    return _Random(int.from_bytes(h[:8], "big"))


def hash01(*parts):
    """Uniform [0,1) as a pure function of the arguments (order independent of the schedule)."""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0**64


class Event:
    __slots__ = ("t", "proc", "fn", "cancelled")

    def __init__(self, t, proc=None, fn=None):
        self.t, self.proc, self.fn, self.cancelled = t, proc, fn, False


class Proc:
    """A simulated process."""

    def __init__(self, sim, pid, parent, name):
        self.sim, self.pid, self.parent, self.name = sim, pid, parent, name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "alive"  # alive -> zombie -> reaped
        self.exitcode = None
        self.thread = None
        self.ident = None
        self.wake = None  # pending resume event
        self.sleeping = False
        self.interruptible = False
        self.in_native = False
        self.kbd = None  # pending KeyboardInterrupt: number of interruption points to skip
        self.async_exc = None  # pending (exc, timer, lines)
        self.aim = None  # stop signal that is due, held back until a chosen kind of seam: [exc, timer, lines, kinds, count, limit, since]
        self.aim_delay = 0.0
        self.tracing = False
        self.quiet = 0  # inside the harness's own observation: interrupts wait until it is over
        self.shield = False  # inside the spawn window: no interrupts (see DESIGN)
        self.timers = []
        self.unflushed = []
        self.base_rss = 0.0
        self.rss_log = []  # (time, additional bytes)
        self.extra_rss = 0.0
        self.cpu = 0.0
        self.pyrand = None
        self.nprand = None
        self.idle_polls = 0
        self.parked_on = None
        self.exit_waiters = []
        self.spawned_at = sim.now
        self.ended_at = None
        self.killed_by = None
        self.job = None  # what the stub is evaluating
        self.stalls = []

    @property
    def alive(self):
        return self.state == "alive"

    @property
    def extra_rss(self):
        return self.rss_log[-1][1]

    @extra_rss.setter
    def extra_rss(self, v):
        self.rss_log.append((self.sim.now, v))

    def stalled_since(self, t=0.0):
        return sum(d for a, d in self.stalls if a >= t)


_CODE = {}


def may_interrupt(code, before, now):
    """Could CPython have noticed a pending interrupt between these two instructions of a frame?

    It looks for one when a function is entered, at the end of a call and when jumping backwards.
    Entry of `__enter__` / `__exit__` is left out: no Python code can protect itself there.
    """
    info = _CODE.get(code)
    if info is None:
        info = _CODE[code] = (code.co_code, dis._parse_exception_table(code))
    ops, table = info
    op = ops[before]
    if op not in _BREAKERS:
        return False
    if op == _RESUME and code.co_name in ("__enter__", "__exit__"):
        return False

    def handler(offset):
        h = None
        for e in table:
            if e.start <= offset < e.end:
                h = e.target
        return h

    return handler(before) == handler(now)


_BREAKERS = {dis.opmap[n] for n in ("RESUME", "CALL", "CALL_FUNCTION_EX", "JUMP_BACKWARD") if n in dis.opmap}
_RESUME = dis.opmap.get("RESUME")


class Sim:
    def __init__(self, seed, cfg, on_over, step_cap=400_000, max_sim_time=None):
        self.seed, self.cfg, self.on_over = seed, cfg, on_over
        self.now = 0.0
        self.wall_offset = 0.0
        self.sched = stream(seed, "sched")
        self.latency = stream(seed, "latency")
        self.heap = []
        self.seq = 0
        self.procs = {}
        self.by_ident = {}
        self.next_pid = 1000
        self.current = None
        self.in_callback = False
        self.steps = 0
        self.step_cap = step_cap
        self.max_sim_time = max_sim_time
        self.trace = hashlib.blake2b(digest_size=16)
        self.order = hashlib.blake2b(digest_size=16)
        self.trace_tail = []
        self.history = []
        self.fired = {}
        self.over = False
        self.seam_hooks = []  # callables(kind, proc), run at each seam of a process
        self.jitter = cfg.get("jitter", 1.0)
        self.p_stall = cfg.get("p_stall", 0.0)
        self.max_stall = cfg.get("max_stall", 0.5)
        self.nstalls = 0
        self.repo_prefix = cfg.get("_repo_prefix", "/repo/gama")

    # ---------------------------------------------------------------- bookkeeping
    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def record(self, kind, **data):
        self.history.append((round(self.now, 6), kind, data))

    def note(self, text):
        """Part of the exact execution trace (for replay comparison)."""
        line = f"{self.now:.6f} {text}"
        self.trace.update(line.encode())
        self.trace_tail.append(line)
        if len(self.trace_tail) > 400:
            del self.trace_tail[:200]

    # ---------------------------------------------------------------- processes
    def add_proc(self, parent, name):
        pid = self.next_pid
        self.next_pid += 1
        p = Proc(self, pid, parent, name)
        self.procs[pid] = p
        return p

    def adopt_current_thread(self, name="main"):
        p = self.add_proc(None, name)
        p.ident = _thread.get_ident()
        self.by_ident[p.ident] = p
        self.current = p
        return p

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def start_thread(self, p, body):
        """Create the thread of process `p`; it runs when its first event comes up."""

        def run():
            p.lock.acquire()
            code = 0
            try:
                body()
            except HarnessGap as e:
                self.abort("gap", f"{e}")
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:  # like multiprocessing: traceback, exit code 1
                self.record("proc_exception", pid=p.pid, exc=f"{type(e).__name__}: {e}")
                code = 1
            self.exit_proc(p, code)

        t = threading.Thread(target=run, daemon=True, name=p.name)
        p.thread = t
        _real_start(t)
        p.ident = t.ident
        self.by_ident[p.ident] = p

    def exit_proc(self, p, code):
        """Normal end of the process running in this thread."""
        # multiprocessing joins the feeder threads: everything put is flushed before exit
        d = 0.001
        while p.unflushed:
            p.wake = self.schedule(self.now + d, proc=p)
            d = min(2 * d, 0.5)
            self._dispatch(p)
        p.state, p.exitcode, p.ended_at = "zombie", code, self.now
        self.note(f"exit {p.pid} {code}")
        self._on_end(p)
        self.by_ident.pop(p.ident, None)
        self._dispatch(None)

    def kill(self, p, sig, by=None):
        if p.state != "alive":
            return
        p.state, p.exitcode, p.ended_at, p.killed_by = "zombie", -sig, self.now, by
        self.note(f"kill {p.pid} {sig} {by}")
        if p.wake is not None:
            p.wake.cancelled = True
        for t in p.timers:
            t._event_cancel()
        for m in p.unflushed:
            m.cancelled = True
        if p.unflushed:
            self.record("message_lost", pid=p.pid, n=len(p.unflushed))
        p.unflushed = []
        self.by_ident.pop(p.ident, None)
        self._on_end(p)

    def _on_end(self, p):
        self.record("proc_end", pid=p.pid, code=p.exitcode, by=p.killed_by)
        for w in p.exit_waiters:
            self.wake(w)
        p.exit_waiters = []

    def reap(self, p):
        if p.state == "zombie":
            p.state = "reaped"
            self.record("proc_reaped", pid=p.pid)

    # ---------------------------------------------------------------- scheduling
    def schedule(self, t, proc=None, fn=None):
        ev = Event(max(t, self.now), proc, fn)
        self.seq += 1
        heapq.heappush(self.heap, (ev.t, self.sched.random(), self.seq, ev))
        return ev

    def call_at(self, t, fn):
        return self.schedule(t, fn=fn)

    def wake(self, p, delay=0.0):
        """Resume a blocked or sleeping process early."""
        if not p.alive:
            return
        if p.wake is not None:
            if p.wake.t <= self.now + delay:
                return
            p.wake.cancelled = True
        p.wake = self.schedule(self.now + delay, proc=p)

    def _dispatch(self, me):
        """Give up the baton; returns when `me` is resumed (never for a finished process)."""
        if me is not None and me.tracing:
            # not while other threads run: instrumented code crashes the interpreter there (CPython 3.12)
            sys.settrace(None)
            try:
                self._next(me)
            finally:
                if me.tracing:
                    sys.settrace(me.tracing[1])
        else:
            self._next(me)

    def _next(self, me):
        heap = self.heap
        while True:
            if not heap:
                self.abort("deadlock", "no event left: all simulated processes are blocked for ever")
            t, _, _, ev = heapq.heappop(heap)
            if ev.cancelled:
                continue
            if t > self.now:
                self.now = t
            self.steps += 1
            if self.steps > self.step_cap:
                self.abort("step_cap", f"more than {self.step_cap} simulated steps")
            if self.max_sim_time is not None and self.now > self.max_sim_time:
                self.abort("sim_time", f"simulated time exceeded {self.max_sim_time}s")
            p = ev.proc
            if p is None:
                self.in_callback = True
                try:
                    ev.fn()
                except Exception:
                    import traceback
                    self.abort("gap", "harness: " + traceback.format_exc()[-1500:])
                finally:
                    self.in_callback = False
                continue
            if not p.alive:
                continue
            p.wake = None
            if p is me:
                return
            self.current = p
            self.note(f"run {p.pid}")
            self._swap_rand(p)
            p.lock.release()
            if me is None:
                return  # thread ends
            me.lock.acquire()
            return

    def _swap_rand(self, p):
        pass  # set by seams

    def cost(self, base):
        c = base * (0.5 + self.sched.random() * self.jitter)
        if self.p_stall and self.sched.random() < self.p_stall:
            self.nstalls += 1
            self.fire("stall")
            d = self.sched.random() * self.max_stall
            me = self.me()
            if me is not None:
                me.stalls.append((self.now, d))
            c += d
        return c

    def step(self, kind, base=1e-4, exact=None, interrupt=True, sleeping=False, interruptible=False):
        """A seam: time passes for the calling process and others may run."""
        me = self.me()
        if me is None or self.in_callback:
            return
        if interrupt:
            self.check(me)
        for h in self.seam_hooks:
            h(kind, me)
        if interrupt:
            self.check(me)
        dt = self.cost(base) if exact is None else exact
        self.order.update(f"{me.pid}{kind[:12]}".encode())
        me.sleeping, me.interruptible = sleeping, interruptible
        me.wake = self.schedule(self.now + dt, proc=me)
        self._dispatch(me)
        me.sleeping = me.interruptible = False
        if me.aim is not None:
            self._aimed(me, kind)
        if interrupt:
            self.check(me)

    def _aimed(self, me, kind):
        """Real code takes time between seams too: the signal comes in the code after the chosen one."""
        a = me.aim
        if kind in a[3]:
            a[4] -= 1
        if a[4] <= 0 or self.now > a[5]:
            me.aim = None
            me.aim_delay += self.now - a[6]
            if me.async_exc is None:
                me.async_exc = (a[0], a[1], a[2] if a[4] <= 0 else 0)
                if a[4] <= 0:
                    self.fire("aimed_stop")

    def touch(self, kind):
        """A seam at which no other process may run (file operations), but faults may strike."""
        me = self.me()
        if me is None or self.in_callback:
            return
        self.check(me)
        for h in self.seam_hooks:
            h(kind, me)
        if me.aim is not None:
            self._aimed(me, kind)
        self.check(me)

    def block(self, me, timeout=None):
        """Block until `wake` or timeout."""
        if timeout is not None:
            me.wake = self.schedule(self.now + timeout, proc=me)
        else:
            me.wake = None
        self._dispatch(me)

    def sleep(self, seconds):
        self.step("sleep", exact=max(0.0, seconds) + self.latency.random() * 2e-3, sleeping=True)

    def compute(self, seconds, kind="compute"):
        """Interruptible (pure Python) work."""
        me = self.me()
        if me is not None:
            me.cpu += seconds
        self.step(kind, exact=seconds, interruptible=True)

    def native(self, seconds):
        """Work in native code: a pending exception is delivered only afterwards."""
        me = self.me()
        if me is not None:
            me.cpu += seconds
            me.in_native = True
        try:
            self.step("native", exact=seconds)
        finally:
            if me is not None:
                me.in_native = False

    # ---------------------------------------------------------------- interrupts
    def check(self, me):
        if me.shield or me.quiet:
            return
        if me.kbd is not None:
            n, me.kbd = me.kbd, None
            self._deliver(me, KeyboardInterrupt, n, None)
            return
        if me.tracing:  # armed at an earlier seam: too much time has passed, deliver now
            exc = me.tracing[0]["exc"]
            self._untrace(me)
            self.note(f"deliver {me.pid} {exc.__name__}")
            raise exc()
        if me.async_exc is not None:
            exc, timer, n = me.async_exc
            me.async_exc = None
            self._deliver(me, exc, n, timer)

    def _deliver(self, me, exc, lines, timer):
        if lines <= 0:
            self.note(f"deliver {me.pid} {exc.__name__}")
            raise exc()
        state = {"n": lines, "exc": exc, "timer": timer}
        prefix = self.repo_prefix
        prev = {}  # frame -> offset of the instruction before

        def tracer(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(prefix):
                return None
            if event == "call":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                prev[frame] = frame.f_lasti
            elif event == "opcode":
                before, now = prev.get(frame), frame.f_lasti
                prev[frame] = now
                if before is not None and may_interrupt(code, before, now):
                    state["n"] -= 1
                    if state["n"] <= 0 and not me.shield and not me.quiet:
                        self._untrace(me)
                        self.note(f"deliver {me.pid} {exc.__name__} in {code.co_name}")
                        self.fire("instruction_level_interrupt")
                        raise exc()
            return tracer

        me.tracing = (state, tracer)
        f = sys._getframe()
        while f is not None:
            if f.f_code.co_filename.startswith(prefix):
                f.f_trace = tracer
                f.f_trace_opcodes = True
                f.f_trace_lines = False
                prev[f] = f.f_lasti
            f = f.f_back
        sys._getframe().f_trace_opcodes = True
        sys.settrace(tracer)

    def _untrace(self, me):
        if me.tracing:
            me.tracing = False
            sys.settrace(None)
            f = sys._getframe()
            while f is not None:
                if f.f_trace is not None and f.f_code.co_filename.startswith(self.repo_prefix):
                    f.f_trace = None
                f = f.f_back

    def cancel_pending(self, me, timer):
        """The timeout context that caused a still undelivered exception has been left."""
        if me.aim is not None and me.aim[1] is timer:
            me.aim = None
        if me.async_exc is not None and me.async_exc[1] is timer:
            me.async_exc = None
        if me.tracing and me.tracing[0]["timer"] is timer:
            self._untrace(me)

    def async_raise(self, ident, exc, timer=None, lines=0):
        p = self.by_ident.get(ident)
        if p is None or not p.alive:
            raise ValueError(f"Invalid thread ID {ident}")
        if p.in_native:  # noticed as soon as the native call returns
            lines = 0
        aim = self.cfg.get("aim")
        if aim and p.parent is None and not p.in_native and p.aim is None:
            p.aim = [exc, timer, aim["lines"], aim["kinds"], aim["n"], self.now + AIM, self.now]
            self.note(f"aim {p.pid} {exc.__name__}")
            return
        p.async_exc = (exc, timer, lines)
        self.note(f"async_exc {p.pid} {exc.__name__} +{lines}")
        if p.interruptible:
            self.wake(p)

    def keyboard_interrupt(self, p, lines=0):
        p.kbd = lines
        self.fire("keyboard_interrupt")
        self.note(f"sigint {p.pid} +{lines}")
        if p.sleeping or p.interruptible:
            self.wake(p)

    # ---------------------------------------------------------------- end of run
    def abort(self, kind, msg):
        if not self.over:
            self.over = True
            self.on_over(kind, msg)
        os._exit(0)

    def live_children(self, parent=None):
        return [p for p in self.procs.values() if p.parent is not None and p.state == "alive"]


_real_start = threading.Thread.start
