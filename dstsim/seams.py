"""Replaces every source of nondeterminism by the simulator, process-wide.

`install()` is called once, before gama is imported; every replacement asks for the simulator of
the current run (`SIM`) and falls back to the real thing when there is none or when the caller is
not a simulated process.  Only standard-library / third-party entry points are replaced, nothing
of gama itself.
"""
import builtins
import copy
import datetime
import errno
import fnmatch
import io
import multiprocessing
import multiprocessing.context
import os
import pickle
import queue as _queue
import random
import shutil
import sys
import threading
import time
import uuid
from collections import namedtuple

import numpy as np
import psutil

from . import engine
from .engine import EPOCH, HarnessGap

SIM = None  # simulator of this run
SCRATCH = None  # directory of this run; no file operation may touch anything outside


def sim():
    """The simulator if the caller is a simulated process, else None."""
    s = SIM
    if s is None or s.in_callback or s.me() is None:
        return None
    return s


# --------------------------------------------------------------------------- clocks
R = dict(
    time=time.time, monotonic=time.monotonic, sleep=time.sleep, process_time=time.process_time,
    perf_counter=time.perf_counter, time_ns=time.time_ns, monotonic_ns=time.monotonic_ns,
    getpid=os.getpid, uuid4=uuid.uuid4, Timer=threading.Timer, open=builtins.open,
    remove=os.remove, unlink=os.unlink, rmdir=os.rmdir, mkdir=os.mkdir, makedirs=os.makedirs,
    rename=os.rename, replace=os.replace, rmtree=shutil.rmtree, listdir=os.listdir,
    deepcopy=copy.deepcopy, datetime=datetime.datetime,
)


def _tick(s):
    me = s.me()
    me.ticks = getattr(me, "ticks", 0) + 1
    if me.ticks % 50 == 0:  # busy loops on the clock make (simulated) progress
        s.step("clock", 1e-3)
    elif me.aim is not None:
        s.touch("clock")


def sim_time():
    s = SIM
    if s is None:
        return R["time"]()
    if s.me() is None:
        return R["time"]()
    if not s.in_callback:
        _tick(s)
    return EPOCH + s.now + s.wall_offset


def sim_monotonic():
    s = SIM
    if s is None or s.me() is None:
        return R["monotonic"]()
    if not s.in_callback:
        _tick(s)
    return 5000.0 + s.now


def sim_process_time():
    s = SIM
    if s is None or s.me() is None:
        return R["process_time"]()
    return s.me().cpu


def sim_sleep(seconds):
    s = sim()
    if s is None:
        return R["sleep"](seconds)
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    s.me().idle_polls = 0
    s.sleep(seconds)


class SimDatetime(R["datetime"]):
    @classmethod
    def now(cls, tz=None):
        s = SIM
        if s is None or s.me() is None:
            return super().now(tz)
        return cls.fromtimestamp(EPOCH + s.now + s.wall_offset, tz)

    @classmethod
    def utcnow(cls):
        s = SIM
        if s is None or s.me() is None:
            return super().utcnow()
        return cls.utcfromtimestamp(EPOCH + s.now + s.wall_offset)

    @classmethod
    def today(cls):
        return cls.now()


SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
SimDatetime.__module__ = "datetime"


def sim_getpid():
    s = SIM
    if s is None:
        return R["getpid"]()
    me = s.me()
    return R["getpid"]() if me is None else me.pid


def sim_uuid4():
    s = SIM
    if s is None or s.me() is None:
        return R["uuid4"]()
    return uuid.UUID(int=s.uuid_rng.getrandbits(128), version=4)


# --------------------------------------------------------------------------- timers
class SimTimer:
    """threading.Timer: fires `function` after `interval` simulated seconds, while the owner lives."""

    def __new__(cls, *a, **k):
        if sim() is None:
            return R["Timer"](*a, **k)
        return object.__new__(cls)

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.daemon, self.name = False, "Timer"
        self.owner, self.event, self.fired, self.cancelled = None, None, False, False

    def start(self):
        s = sim()
        self.owner = s.me()
        self.owner.timers.append(self)
        late = s.latency.random() * s.cfg.get("timer_latency", 0.005)
        self.event = s.call_at(s.now + max(0.0, self.interval) + late, self._fire)

    def _fire(self):
        s = SIM
        if self.cancelled or not self.owner.alive:
            return
        self.fired = True
        if self in self.owner.timers:
            self.owner.timers.remove(self)
        s.firing_timer = self
        try:
            self.function(*self.args, **self.kwargs)
        finally:
            s.firing_timer = None

    def _event_cancel(self):
        self.cancelled = True
        if self.event is not None:
            self.event.cancelled = True

    def cancel(self):
        self._event_cancel()
        if self.owner is not None:
            if self in self.owner.timers:
                self.owner.timers.remove(self)
            SIM.cancel_pending(self.owner, self)

    def is_alive(self):
        return self.event is not None and not self.fired and not self.cancelled

    def join(self, timeout=None):
        return None


def sim_async_raise(target_tid, exception):
    s = SIM
    if s is None or target_tid not in s.by_ident:
        raise ValueError(f"Invalid thread ID {target_tid}")
    p = s.by_ident[target_tid]
    lines = s.pick_lines(p)
    s.record("async_exc", pid=p.pid, exc=exception.__name__)
    s.async_raise(target_tid, exception, getattr(s, "firing_timer", None), lines)


# --------------------------------------------------------------------------- queues
class _Msg:
    __slots__ = ("obj", "data", "cancelled", "owner")

    def __init__(self, obj, owner):
        self.obj, self.owner, self.cancelled, self.data = obj, owner, False, None


class SimQueue:
    """multiprocessing.Queue: put is asynchronous (feeder), get may be spuriously empty."""

    _n = 0

    def __init__(self, maxsize=0, *, ctx=None):
        s = SIM
        self.maxsize = maxsize
        self.items = []
        self.closed_in = set()
        self.pollers = set()
        self.parked = []
        self.n = s.nqueues = getattr(s, "nqueues", 0) + 1
        s.__dict__.setdefault("queues", []).append(self)
        self.unfinished = 0
        self.stalled = []  # messages the feeder threads can not write, because the pipe is full
        self.no_join = set()

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError("Queue objects should only be shared between processes through inheritance")

    def _s(self):
        s = sim()
        if s is None:
            raise HarnessGap("queue used outside of a simulated process")
        return s

    def put(self, obj, block=True, timeout=None):
        s = self._s()
        s.step("put", 2e-5)
        me = s.me()
        if me.pid in self.closed_in:
            raise ValueError(f"Queue {self!r} is closed")
        m = _Msg(obj, me)
        me.unflushed.append(m)
        self.unfinished += 1
        # one feeder thread per process and queue: order of puts is kept
        delay = s.latency.random() * s.cfg.get("feeder_latency", 0.002)
        t = max(s.now + delay, me.__dict__.setdefault("feed", {}).get(self.n, 0.0) + 1e-6)
        me.feed[self.n] = t
        if me.parent is not None:
            me.job = None
            s.record("job_end", pid=me.pid)
        s.record("q_put", q=self.n, pid=me.pid, id=str(getattr(obj, "id", "")))
        s.call_at(t, lambda: self._flush(m))

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _flush(self, m):
        s = SIM
        if m.cancelled:
            return
        try:
            m.data = pickle.dumps(m.obj)
        except Exception as e:  # the feeder thread prints the traceback and drops the object
            s.record("unpicklable", pid=m.owner.pid, exc=f"{type(e).__name__}: {e}")
            self.unfinished -= 1
            m.owner.unflushed.remove(m)
            return
        if m.owner.parent is not None and s.__dict__.get("kill_sender"):
            s.kill_sender = False
            s.fire("died_sending")
            m.owner.unflushed.remove(m)
            self.items.append(m)
            self.torn = "block"
            self.torn_by = m.owner.pid
            s.kill(m.owner, 9, by="fault")
            return
        if not self._fits(m) or any(x.owner is m.owner for x in self.stalled):
            s.fire("pipe_full")
            self.stalled.append(m)
            return
        self._enter(m)

    def _fits(self, m):
        """A pipe holds so many bytes; a longer message is written while it is read."""
        return not self.items or sum(len(x.data) + 4 for x in self.items) + len(m.data) + 4 <= SIM.cfg.get("pipe", 65536)

    def _resume(self):
        while True:
            self.stalled = [m for m in self.stalled if not m.cancelled]
            if not self.stalled or not self._fits(self.stalled[0]):
                return
            self._enter(self.stalled.pop(0))

    def _enter(self, m):
        s = SIM
        if m in m.owner.unflushed:
            m.owner.unflushed.remove(m)
        s.note(f"flush q{self.n} {len(self.items)}")
        self.items.append(m)
        parked, self.parked = self.parked, []
        for p in parked:
            if p.parked_on is not None:
                p.parked_on = None
                p.idle_polls = 0
                s.wake(p, s.latency.random() * 2e-3)

    held = False  # the lock of the receiving end is lost with a process
    torn_by = None
    torn = None  # how the pipe is left by a receive that was interrupted halfway

    def _pop(self):
        s, me = SIM, SIM.me()
        if self.torn:
            if self.torn == "block":  # garbage taken for the length of a long message
                s.fire("torn_queue_blocks")
                s.block(me, None)
                s.check(me)
            self.items.pop(0)
            if self.torn == "eof":
                raise EOFError("Ran out of input")
            raise pickle.UnpicklingError("invalid load key")
        m = self.items.pop(0)
        t = s.cfg.get("recv_time", 0.0)
        if t and me.parent is None and not isinstance(m.obj, str):
            # a large message takes its time; an exception in between leaves part of it in the pipe
            try:
                s.step("recv", exact=t * s.latency.random() * (0.01 if m.owner is me else 1.0))  # calls are small, results large
            except BaseException:
                s.fire("torn_receive")
                self.torn = s.latency.choice(["eof", "eof", "block", "garbage"])
                m.data = b""
                self.items.insert(0, m)
                raise
        if self.stalled:
            s.call_at(s.now + 1e-5 + s.latency.random() * s.cfg.get("feeder_latency", 0.002), self._resume)
        obj = pickle.loads(m.data)
        SIM.record("q_get", q=self.n, pid=me.pid, id=str(getattr(obj, "id", "")))
        if me.parent is not None and not isinstance(obj, str):
            me.job = getattr(obj, "id", obj)
            SIM.record("job_start", pid=me.pid)
        return obj

    def get(self, block=True, timeout=None):
        s = self._s()
        me = s.me()
        if me.pid in self.closed_in:
            raise ValueError(f"Queue {self!r} is closed")
        self.pollers.add(me.pid)
        if self.held:  # by a process that died: nobody can receive any more
            if not block:
                s.step("poll", 1e-4)
                self._idle(s, me)
            else:
                s.sleep(1e9 if timeout is None else timeout)
            raise _queue.Empty
        if not block:
            s.step("poll", 1e-4)
            if self.items and not self._contended(s):
                me.idle_polls = 0
                s.note(f"get q{self.n} {me.pid}")
                return self._pop()
            self._idle(s, me)
            raise _queue.Empty
        end = None if timeout is None else s.now + timeout
        s.step("get", 5e-5)
        while not self.items:
            if end is not None and s.now >= end:
                raise _queue.Empty
            self.parked.append(me)
            me.parked_on = self
            me.sleeping = True
            s.block(me, None if end is None else end - s.now)
            me.sleeping = False
            me.parked_on = None
            s.check(me)
        me.idle_polls = 0
        s.note(f"get q{self.n} {me.pid}")
        return self._pop()

    def _contended(self, s):
        p = s.cfg.get("p_spurious_empty", 0.0)
        if p and len([q for q in self.pollers if s.procs[q].alive]) > 1 and s.latency.random() < p:
            s.fire("spurious_empty")
            return True
        return False

    def _idle(self, s, me):
        """A process that polls empty queues again and again is parked for growing moments."""
        me.idle_polls += 1
        if me.idle_polls < 6:
            return
        d = min(0.2, 0.001 * 2 ** min(me.idle_polls - 6, 10))
        for q in me.__dict__.setdefault("polled", []):
            if me not in q.parked:
                q.parked.append(me)
        me.parked_on = me
        s.step("idle", exact=d * (0.5 + s.sched.random()))
        me.parked_on = None
        for q in me.polled:
            if me in q.parked:
                q.parked.remove(me)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        s = self._s()
        me = s.me()
        if me.pid in self.closed_in:
            raise OSError("handle is closed")
        s.step("empty", 2e-5)
        return not self.items

    def full(self):
        return False

    def qsize(self):
        self._s().step("qsize", 2e-5)
        return len(self.items)

    def close(self):
        s = self._s()
        self.closed_in.add(s.me().pid)

    def join_thread(self):
        s = self._s()
        me = s.me()
        while me.pid not in self.no_join and any(m.owner is me for m in self.stalled):
            s.sleep(0.01)

    def cancel_join_thread(self):
        self.no_join.add(self._s().me().pid)

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        s = self._s()
        while self.unfinished > 0:
            s.sleep(0.01)


_real_get = SimQueue.get


def _get(self, block=True, timeout=None):
    s = SIM
    if s is not None and not s.in_callback:
        me = s.me()
        if me is not None and not block:
            polled = me.__dict__.setdefault("polled", [])
            if self not in polled:
                polled.append(self)
    return _real_get(self, block, timeout)


SimQueue.get = _get


# --------------------------------------------------------------------------- processes
class SimProcess:
    """multiprocessing.Process with fork semantics (arguments are copied, random state inherited)."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self._daemon = bool(daemon)
        self._p = None
        self.name = name or "Process"
        self._closed = False
        self.authkey = b""

    def __deepcopy__(self, memo):
        return self

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = v

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = sim()
        if s is None:
            raise HarnessGap("process started outside of a simulated process")
        if self._p is not None:
            raise AssertionError("cannot start a process twice")
        s.step("spawn", 2e-3)
        for c in list(s.mp_children.get(s.me().pid, [])):  # multiprocessing's _cleanup()
            if not c._p.alive:
                s.reap(c._p)
                s.mp_children[s.me().pid].remove(c)
        f = s.spawn_fault() if hasattr(s, "spawn_fault") else None
        if f is not None:
            s.fire("spawn_error")
            raise OSError(f, os.strerror(f))
        parent = s.me()
        p = s.add_proc(parent, f"worker{s.next_pid}")
        self._p = p
        p.daemon = self._daemon
        p.pyrand = random_copy(parent.pyrand)
        p.nprand = np_copy(parent.nprand)
        p.base_rss = s.cfg.get("worker_rss", 100.0) * 2**20
        if type(self) is SimProcess:
            target, args, kwargs = copy.deepcopy((self._target, self._args, self._kwargs))
            body = (lambda: target(*args, **kwargs)) if target else (lambda: None)
        else:
            clone = copy.copy(self)
            clone._target, clone._args, clone._kwargs = copy.deepcopy((self._target, self._args, self._kwargs))
            body = clone.run
        s.record("proc_start", pid=p.pid, parent=parent.pid)
        s.note(f"spawn {p.pid}")
        s.start_thread(p, body)
        s.mp_children.setdefault(parent.pid, []).append(self)
        p.wake = s.schedule(s.now + s.latency.random() * s.cfg.get("spawn_latency", 0.02), proc=p)
        parent.shield = True  # interrupts are not delivered until the next queue/sleep/file seam
        if hasattr(s, "on_spawn"):
            s.on_spawn(p)

    @property
    def pid(self):
        return None if self._p is None else self._p.pid

    ident = pid

    @property
    def exitcode(self):
        if self._p is None or self._p.alive:
            return None
        SIM.reap(self._p)
        return self._p.exitcode

    def is_alive(self):
        if self._p is None:
            return False
        SIM.step("is_alive", 2e-5)
        if self._p.alive:
            return True
        SIM.reap(self._p)
        return False

    def join(self, timeout=None):
        s = sim()
        me = s.me()
        end = None if timeout is None else s.now + timeout
        s.step("join", 2e-5)
        while self._p.alive:
            if end is not None and s.now >= end:
                return
            self._p.exit_waiters.append(me)
            me.sleeping = True
            s.block(me, None if end is None else end - s.now)
            me.sleeping = False
            s.check(me)
        s.reap(self._p)

    def terminate(self):
        SIM.step("terminate", 5e-5)
        if self._p.alive:
            SIM.kill(self._p, 15, by=SIM.me().pid)

    def kill(self):
        SIM.step("kill", 5e-5)
        if self._p.alive:
            SIM.kill(self._p, 9, by=SIM.me().pid)

    def close(self):
        if self._p is not None and self._p.alive:
            raise ValueError("Cannot close a process while it is still running.")
        self._closed = True

    @property
    def sentinel(self):
        raise HarnessGap("Process.sentinel")


def random_copy(r):
    c = engine._Random()
    c.setstate(r.getstate())
    return c


def np_copy(r):
    c = np.random.RandomState()
    c.set_state(r.get_state())
    return c


class SimContext:
    def __init__(self):
        self.Process = SimProcess
        self.Queue = SimQueue
        self.SimpleQueue = SimQueue
        self.JoinableQueue = SimQueue

    def cpu_count(self):
        return 8

    def get_start_method(self, allow_none=False):
        return "fork"

    def __getattr__(self, name):
        return getattr(multiprocessing, name)


class _CurrentProcess:
    def __init__(self, p):
        self.pid = self.ident = p.pid
        self.name = p.name
        self.daemon = getattr(p, "daemon", False)
        self._config, self.authkey = {}, b""


# --------------------------------------------------------------------------- psutil
pmem = namedtuple("pmem", "rss vms shared text lib data dirty")


class SimPsProcess:
    def __init__(self, pid=None):
        s = sim()
        if s is None:
            raise HarnessGap("psutil.Process outside of a simulated process")
        if pid is None:
            pid = s.me().pid
        p = s.procs.get(pid)
        if p is None or p.state == "reaped":
            raise psutil.NoSuchProcess(pid)
        self._p = p
        self._pid = pid

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, other):
        return isinstance(other, SimPsProcess) and other._pid == self._pid

    def __hash__(self):
        return hash(self._pid)

    def __repr__(self):
        return f"psutil.Process(pid={self._pid})"

    pid = property(lambda self: self._pid)

    def _live(self, kind):
        SIM.step(kind, 5e-5)
        if self._p.state == "reaped":
            raise psutil.NoSuchProcess(self._pid)
        return self._p

    def memory_info(self):
        p = self._live("memory_info")
        rss = 0 if p.state == "zombie" else int(SIM.rss(p))
        SIM.record("mem_read", pid=p.pid, rss=rss, by=SIM.me().pid)
        return pmem(rss, 2 * rss, 0, 0, 0, rss, 0)

    memory_full_info = memory_info

    def memory_percent(self, memtype="rss"):
        return self.memory_info()[0] / (32 * 2**30) * 100

    def status(self):
        return psutil.STATUS_ZOMBIE if self._live("status").state == "zombie" else psutil.STATUS_RUNNING

    def is_running(self):
        SIM.step("is_running", 2e-5)
        return self._p.state != "reaped"

    def terminate(self):
        p = self._live("terminate")
        if p.alive:
            SIM.kill(p, 15, by=SIM.me().pid)

    def kill(self):
        p = self._live("kill")
        if p.alive:
            SIM.kill(p, 9, by=SIM.me().pid)

    def send_signal(self, sig):
        p = self._live("kill")
        if p.alive and sig in (9, 15):
            SIM.kill(p, sig, by=SIM.me().pid)
        elif p.alive and sig == 2:
            SIM.keyboard_interrupt(p)

    def wait(self, timeout=None):
        s = SIM
        me = s.me()
        end = None if timeout is None else s.now + timeout
        s.step("wait", 1e-4)
        while self._p.alive:
            if end is not None and s.now >= end:
                raise psutil.TimeoutExpired(timeout, self._pid)
            self._p.exit_waiters.append(me)
            me.sleeping = True
            s.block(me, None if end is None else end - s.now)
            me.sleeping = False
            s.check(me)
        s.reap(self._p)
        return self._p.exitcode

    def ppid(self):
        p = self._live("ppid")
        return p.parent.pid if p.parent else 1

    def parent(self):
        p = self._live("ppid")
        return SimPsProcess(p.parent.pid) if p.parent else None

    def name(self):
        return self._live("name").name

    def children(self, recursive=False):
        p = self._live("children")
        return [SimPsProcess(q.pid) for q in list(SIM.procs.values()) if q.parent is p and q.state != "reaped"]

    def create_time(self):
        return EPOCH + self._p.spawned_at

    def cpu_percent(self, interval=None):
        return 0.0

    def cpu_times(self):
        return psutil._common.pcputimes(self._live("cpu_times").cpu, 0.0, 0.0, 0.0)

    def num_threads(self):
        return 1

    def oneshot(self):
        import contextlib
        return contextlib.nullcontext()

    def __getattr__(self, name):
        raise HarnessGap(f"psutil.Process.{name}")


# --------------------------------------------------------------------------- files
def inside(path):
    if SCRATCH is None:
        return False
    try:
        p = os.path.realpath(os.fspath(path))
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == SCRATCH or p.startswith(SCRATCH + os.sep)


class FaultyRaw(io.FileIO):
    """Raw file whose writes may fail, be cut short, or be the last thing the process does."""

    def write(self, b):
        s = sim()
        if s is not None:
            b = memoryview(b).cast("B") if not isinstance(b, (bytes, bytearray)) else b
            s.touch("write")
            f = s.io_fault("write", self.name)
            if f is not None:
                n = int(len(b) * f.get("torn", 0.0))
                if n:
                    super().write(bytes(b[:n]))
                s.fire("torn_write" if n else "write_error")
                if f["kind"] == "crash_write":
                    s.crash_now("crash during write")
                raise OSError(f.get("errno", errno.ENOSPC), os.strerror(f.get("errno", errno.ENOSPC)), self.name)
        return super().write(b)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = sim()
    if s is None or not isinstance(file, (str, os.PathLike)):
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not inside(file):
        if any(c in mode for c in "wax+"):
            s.escape("open:" + mode, file)
            raise PermissionError(errno.EPERM, "outside of the scratch directory", os.fspath(file))
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    s.touch("open")
    f = s.io_fault("open", os.fspath(file))
    if f is not None:
        s.fire("open_error")
        raise OSError(f.get("errno", errno.ENOSPC), os.strerror(f.get("errno", errno.ENOSPC)), os.fspath(file))
    rawmode = mode.replace("b", "").replace("t", "")
    existed = os.path.exists(file)
    raw = FaultyRaw(os.fspath(file), rawmode, closefd, opener)
    if not existed:
        s.record("file_created", path=os.path.realpath(os.fspath(file)))
    line_buffering = False
    if buffering == 1 and "b" not in mode:
        line_buffering, buffering = True, -1
    if buffering == 0:
        if "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering < 0 else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def _guard(name, nargs=1):
    real = R[name]

    def fn(*args, **kw):
        s = sim()
        if s is None or kw.get("dir_fd") is not None or (args and isinstance(args[0], int)):
            return real(*args, **kw)
        for a in args[:nargs]:
            if not inside(a):
                s.escape(name, a)
                raise PermissionError(errno.EPERM, "outside of the scratch directory", os.fspath(a))
        s.touch(name)
        f = s.io_fault(name, os.fspath(args[0])) if args else None
        if f is not None:
            s.fire(name + "_error")
            raise OSError(f.get("errno", errno.EIO), os.strerror(f.get("errno", errno.EIO)), os.fspath(args[0]))
        return real(*args, **kw)

    fn.__name__ = name
    return fn


# --------------------------------------------------------------------------- randomness
def _install_random():
    inst = random._inst
    for name in dir(random):
        f = getattr(random, name)
        if getattr(f, "__self__", None) is inst:
            def disp(*a, _n=name, _f=f, **k):
                s = SIM
                if s is not None:
                    p = s.me()
                    if p is not None:
                        return getattr(p.pyrand, _n)(*a, **k)
                return _f(*a, **k)
            disp.__name__ = name
            setattr(random, name, disp)
    mt = np.random.mtrand
    g = mt._rand
    for name in dir(np.random):
        f = getattr(np.random, name)
        if getattr(f, "__self__", None) is g:
            def disp(*a, _n=name, _f=f, **k):
                s = SIM
                if s is not None:
                    p = s.me()
                    if p is not None:
                        return getattr(p.nprand, _n)(*a, **k)
                return _f(*a, **k)
            disp.__name__ = name
            setattr(np.random, name, disp)
    # np.random.seed is a module-level function in numpy >= 1.25
    real_seed = np.random.seed

    def seed(seed=None):
        s = SIM
        p = s.me() if s is not None else None
        if p is not None:
            return p.nprand.seed(seed)
        return real_seed(seed)

    np.random.seed = seed


def _speed_up():
    """Cheaper stand-ins for scikit-learn parts that no property is about."""
    import inspect
    import sklearn.impute
    from sklearn.base import BaseEstimator, TransformerMixin

    class SimpleImputer(TransformerMixin, BaseEstimator):
        """Imputes the median."""

        def __init__(self, *, missing_values=np.nan, strategy="mean", fill_value=None, verbose="deprecated",
                     copy=True, add_indicator=False, keep_empty_features=False):
            self.missing_values, self.strategy, self.fill_value = missing_values, strategy, fill_value
            self.verbose, self.copy, self.add_indicator = verbose, copy, add_indicator
            self.keep_empty_features = keep_empty_features

        def fit(self, X, y=None):
            self.n_features_in_ = np.shape(X)[1]
            a = np.asarray(X, dtype=float)
            self.statistics_ = np.nanmedian(a, axis=0) if np.isnan(a).any() else None
            return self

        def transform(self, X):
            a = np.array(X, dtype=float)
            if a.ndim != 2 or a.shape[1] != self.n_features_in_:
                raise ValueError(f"{a.shape} features, expected {self.n_features_in_}")
            gaps = np.isnan(a)
            if gaps.any():
                fill = self.statistics_ if self.statistics_ is not None else np.zeros(a.shape[1])
                a = np.where(gaps, fill, a)
            return a

    SimpleImputer.__module__, SimpleImputer.__qualname__ = "sklearn.impute", "SimpleImputer"
    sklearn.impute.SimpleImputer = SimpleImputer
    import category_encoders

    class TargetEncoder(TransformerMixin, BaseEstimator):
        """Replaces categories by the mean target."""

        def __init__(self, verbose=0, cols=None, drop_invariant=False, return_df=True, handle_missing="value",
                     handle_unknown="value", min_samples_leaf=20, smoothing=10, hierarchy=None):
            for k, v in locals().copy().items():
                if k != "self":
                    setattr(self, k, v)

        def fit(self, X, y=None):
            self.n_features_in_ = np.shape(X)[1]
            yy = np.asarray(y, dtype=float)
            self.mean_ = float(np.mean(yy))
            self.mapping_ = {c: {v: float(np.mean(yy[np.asarray(X[c] == v)])) for v in X[c].dropna().unique()} for c in self.cols or ()}
            return self

        def transform(self, X):
            if self.cols:
                X = X.copy()
                for c, m in self.mapping_.items():
                    X[c] = [m.get(v, self.mean_) for v in X[c]]
            return X

    TargetEncoder.__module__, TargetEncoder.__qualname__ = "category_encoders", "TargetEncoder"
    category_encoders.TargetEncoder = TargetEncoder
    names = {}
    orig = BaseEstimator._get_param_names.__func__

    def _get_param_names(cls):
        if cls not in names:
            names[cls] = orig(cls)
        return list(names[cls])

    BaseEstimator._get_param_names = classmethod(_get_param_names)


_installed = False


def install():
    """Patch the process; must run before gama (or anything importing names) is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    assert "gama" not in sys.modules
    import stopit.threadstop
    import pandas  # noqa: F401  (imported before datetime is replaced)
    import sklearn.model_selection, sklearn.pipeline, sklearn.metrics  # noqa
    import category_encoders  # noqa
    import sklearn.naive_bayes  # noqa
    _speed_up()

    time.time, time.sleep, time.monotonic = sim_time, sim_sleep, sim_monotonic
    time.perf_counter = lambda: sim_monotonic() if SIM is not None else R["perf_counter"]()
    time.process_time = sim_process_time
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_monotonic() * 1e9)
    datetime.datetime = SimDatetime
    os.getpid = sim_getpid
    uuid.uuid4 = sim_uuid4
    threading.Timer = SimTimer
    stopit.threadstop.async_raise = sim_async_raise
    builtins.open = sim_open
    io.open = sim_open
    for n, k in dict(remove=1, unlink=1, rmdir=1, mkdir=1, makedirs=1, rename=2, replace=2).items():
        setattr(os, n, _guard(n, k))
    shutil.rmtree = _guard("rmtree")
    ctx = SimContext()
    multiprocessing.Queue = multiprocessing.SimpleQueue = multiprocessing.JoinableQueue = SimQueue
    multiprocessing.Process = SimProcess
    multiprocessing.process.BaseProcess  # keep the real module intact
    multiprocessing.get_context = lambda method=None: ctx
    multiprocessing.cpu_count = os.cpu_count = lambda: SIM.cfg.get("cpus", 8) if SIM is not None else 8
    multiprocessing.active_children = _active_children
    real_current = multiprocessing.current_process

    def current_process():
        s = sim()
        return real_current() if s is None else _CurrentProcess(s.me())

    multiprocessing.current_process = current_process
    psutil.Process = SimPsProcess
    psutil.pid_exists = lambda pid: pid in SIM.procs and SIM.procs[pid].state != "reaped"
    _install_random()


def _active_children():
    s = sim()
    if s is None:
        return []
    out = []
    for c in list(s.mp_children.get(s.me().pid, [])):
        if c._p.alive:
            out.append(c)
        else:
            s.reap(c._p)
            s.mp_children[s.me().pid].remove(c)
    return out


# --------------------------------------------------------------------------- per-run set-up
def attach(s, scratch):
    """Make `s` the simulator of this OS process; the calling thread is the main process."""
    global SIM, SCRATCH
    SCRATCH = os.path.realpath(scratch)
    s.uuid_rng = engine.stream(s.cfg.get("uuid_seed", s.seed), "uuid")
    s.mp_children = {}
    s.escapes = []
    s.firing_timer = None

    def escape(op, path):
        s.escapes.append((op, os.fspath(path)))

    s.escape = escape
    if not hasattr(s, "io_fault"):
        s.io_fault = lambda op, path: None
    if not hasattr(s, "pick_lines"):
        s.pick_lines = lambda p: 0
    s.rss = lambda p: p.base_rss + p.extra_rss

    mt = np.random.mtrand

    def swap(p):
        mt._rand = p.nprand

    s._swap_rand = swap
    main = s.adopt_current_thread("main")
    ent = engine.stream(s.cfg.get("entropy_seed", s.seed), "entropy")
    main.pyrand = engine._Random(ent.getrandbits(64))
    main.nprand = np.random.RandomState(ent.getrandbits(32))
    main.base_rss = s.cfg.get("main_rss", 200.0) * 2**20
    swap(main)
    SIM = s

    orig_step = s.step

    def step(kind, *a, **k):
        me = s.me()
        if me is not None and me.shield and kind != "clock":
            me.shield = False
        return orig_step(kind, *a, **k)

    s.step = step
    return main


def detach():
    global SIM
    SIM = None
