"""Runs simulated executions: one forked OS process per run, results over a pipe."""
import errno
import gc
import json
import os
import resource
import selectors
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("DSTSIM_REPO", "/repo")
CPU_LIMIT = 90  # CPU seconds of one run without finishing: the code under test is looping
WALL_LIMIT = 200


def boot():
    """Import everything once, with the seams in place."""
    from . import seams

    seams.install()
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/dstsim"  # never trust byte code lying about in /repo
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import gama  # noqa
    import gama.gama
    import gama.search_methods
    import gama.postprocessing
    import gama.logging.GamaReport  # noqa

    assert os.path.realpath(gama.__file__).startswith(os.path.realpath(REPO) + "/"), gama.__file__
    warnings.simplefilter("ignore")
    gc.collect()
    gc.freeze()


def _child(check, case, scratch, wfd, want_trace):
    """Body of the forked process; never returns."""
    from . import engine, seams
    from .world import Violation, World

    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1) if os.environ.get("DSTSIM_DEBUG") else (0, 1, 2):
        os.dup2(devnull, fd)
    sys.stdout = sys.stderr = os.fdopen(os.dup(devnull), "w")
    import logging
    logging.raiseExceptions = False
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.chdir(scratch)
    gc.disable()
    out = dict(violations=[], gap=None)
    w = World(case["seed"], case["cfg"], case.get("faults", []), scratch)
    w.params = case.get("params", {})
    w.probes = {}
    w.nontrivial = False

    def send(kind=None, msg=None):
        s = w.sim
        out["violations"] = [list(v) for v in w.violations]
        if kind == "gap":
            out["gap"] = msg
        elif kind is not None:
            out["over"] = [kind, msg]
        out.update(sim_time=s.now, steps=s.steps, fired=s.fired, trace=s.trace.hexdigest(),
                   order=s.order.hexdigest(), probes=w.probes, nprocs=len(s.procs),
                   escapes=s.escapes, result=getattr(w, "result", None),
                   nontrivial=bool(w.nontrivial))
        if want_trace:
            out["tail"] = s.trace_tail[-200:]
        data = json.dumps(out, default=str).encode()
        seams.detach()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
        os._exit(0)

    def on_over(kind, msg):
        """Deadlock, step cap, ...: decided by the check."""
        s = w.sim
        s.over = True
        seams_me = s.by_ident
        try:
            if kind != "gap":
                check.stuck(w, kind, msg)
        except BaseException:
            send("gap", "harness: " + traceback.format_exc()[-1500:])
        send(kind, msg)

    def finish_run(hook):
        try:
            if hook:
                from . import seams as sm
                sm.SIM = None
                hook()
                sm.SIM = s
        except Violation as v:
            w.violate(v.kind, v.msg)
        except BaseException:
            send("gap", "harness: " + traceback.format_exc()[-1500:])
        send("crash", w.crashed)

    w.finish_run = finish_run
    cfg = dict(case["cfg"])
    cfg["_repo_prefix"] = os.path.join(REPO, "gama")
    s = engine.Sim(case["seed"], cfg, on_over, step_cap=cfg.get("step_cap", 600_000),
                   max_sim_time=cfg.get("max_sim_time", 6 * 3600))
    w.attach(s)
    try:
        check.run(w)
    except Violation as v:
        w.violate(v.kind, v.msg)
    except engine.HarnessGap as e:
        send("gap", f"{e}\n" + traceback.format_exc()[-1500:])
    except BaseException:
        send("gap", "harness: " + traceback.format_exc()[-2500:])
    send()


class Pool:
    def __init__(self, check, slots=None):
        self.check = check
        self.slots = slots or int(os.environ.get("DSTSIM_SLOTS", "0")) or min(8, os.cpu_count() or 8)
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix="gamasim_", dir=base)
        self.n = 0
        self.sel = selectors.DefaultSelector()
        self.active = {}

    def start(self, case, tag, want_trace=False):
        self.n += 1
        scratch = os.path.join(self.base, f"r{self.n}")
        os.mkdir(scratch)
        # the same absolute path length for every run: the run sees only its own directory
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                for a in self.active.values():
                    os.close(a["fd"])
                run_dir = os.path.join(scratch, "w")
                os.mkdir(run_dir)
                _child(self.check, case, run_dir, wfd, want_trace)
            except BaseException:
                try:
                    os.write(wfd, json.dumps(dict(gap="harness: " + traceback.format_exc()[-1500:])).encode())
                except OSError:
                    pass
            finally:
                os._exit(0)
        os.close(wfd)
        self.active[rfd] = dict(fd=rfd, pid=pid, case=case, tag=tag, scratch=scratch, data=b"", t0=time.time())
        self.sel.register(rfd, selectors.EVENT_READ)

    def poll(self, timeout=1.0):
        """Yield (tag, case, result) of finished runs."""
        done = []
        for key, _ in self.sel.select(timeout):
            a = self.active[key.fd]
            b = os.read(key.fd, 1 << 20)
            if b:
                a["data"] += b
                continue
            done.append(self._finish(a))
        now = time.time()
        for a in list(self.active.values()):
            if now - a["t0"] > WALL_LIMIT:
                os.kill(a["pid"], signal.SIGKILL)
                a["wall"] = True
                a["t0"] = now + 1e9
        return done

    def _finish(self, a):
        fd = a["fd"]
        self.sel.unregister(fd)
        os.close(fd)
        del self.active[fd]
        _, status = os.waitpid(a["pid"], 0)
        shutil.rmtree(a["scratch"], ignore_errors=True)
        try:
            res = json.loads(a["data"])
        except ValueError:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            if sig in (signal.SIGXCPU, ) or (sig == signal.SIGKILL and not a.get("wall")):
                res = dict(violations=[["stuck", f"no progress in simulated time within {CPU_LIMIT} CPU seconds"]],
                           gap=None, cpu_limit=True)
                if sig == signal.SIGKILL:
                    res = dict(violations=[], gap="run killed (out of memory?)")
            elif a.get("wall"):
                res = dict(violations=[], gap="wall clock limit of the run")
            else:
                res = dict(violations=[], gap=f"run ended with status {status}")
        res.setdefault("violations", [])
        res.setdefault("gap", None)
        res["wall"] = time.time() - a["t0"] if not a.get("wall") else WALL_LIMIT
        return a["tag"], a["case"], res

    def map(self, cases, stop=None, want_trace=False):
        """Run (tag, case) pairs; yields results as they finish, stops feeding when stop() is true."""
        it = iter(cases)
        exhausted = False
        while True:
            while not exhausted and len(self.active) < self.slots:
                if stop is not None and stop():
                    exhausted = True
                    break
                try:
                    tag, case = next(it)
                except StopIteration:
                    exhausted = True
                    break
                self.start(case, tag, want_trace)
            if not self.active:
                return
            yield from self.poll()

    def one(self, case, want_trace=False):
        for _, _, res in self.map([("one", case)], want_trace=want_trace):
            out = res
        return out

    def close(self):
        for a in list(self.active.values()):
            try:
                os.kill(a["pid"], signal.SIGKILL)
                os.waitpid(a["pid"], 0)
            except OSError:
                pass
        shutil.rmtree(self.base, ignore_errors=True)
