"""C15: after fit exactly the requested artefacts remain."""
import os

from ..lib import (Check, Events, base_cfg, behaviours, fit, gama_params, make_gama, short, tree, tree_diff, tune, warm)
from .. import seams

KINDS = ["raise", "raise_text", "memerr", "fail_score", "fail_late", "hang_py", "slow"]
LOGS = {"gama.log", "evaluations.log", "memory.log"}
INVALID = [dict(max_total_time=0), dict(max_total_time=-5), dict(max_total_time=None), dict(max_eval_time=0), dict(max_eval_time=-1),
           dict(n_jobs=0), dict(n_jobs=-2), dict(scoring="no_such_metric"), dict(max_pipeline_length=2, space="clf_nodata")]


class C15(Check):
    id = "C15"
    quick_runs = 700
    thorough_runs = 20000
    nontrivial = "fit returned (or the constructor refused its input)"
    assumptions = ["one instance per run; nobody else writes into the output directory"]

    def gen(self, rng, i, tier):
        u = rng.random()
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, 0.6), final_fit_time=0.1)
        cfg["recv_time"] = rng.choice([0.0, 0.0, 0.05, 0.4])
        p = gama_params(rng, mode="fit", max_total_time=rng.choice([8, 10, 14]), post=rng.choice(["best", "ens", "best", "ens", "none"]),
                        store=rng.choice(["logs", "models", "all", "nothing"]), max_models=rng.choice([1, 3, 50]))
        p["where"] = rng.choice(["new", "new", "empty", "nested", "home", "auto", "absolute"])
        p["chdir"] = rng.random() < 0.2
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, 1, 5, 15])
        p["cb"] = rng.choice([None, None, "raise", "kbd"])
        if u < 0.12:
            p["mode"] = "nonempty"
            p["content"] = rng.choice(["other.txt", "gama.log", "evaluations.log", "cache/x.pkl", "sub/deep.log", ".hidden"])
            p["bad"] = rng.choice([None, None] + INVALID)
        elif u < 0.35:
            p["mode"] = "invalid"
            p["bad"] = rng.choice(INVALID)
            p["where"] = rng.choice(["new", "nested", "home", "auto", "absolute"])
        tune(rng, cfg, p, (3, 18))
        faults = []
        T = p["max_total_time"]
        v = rng.random()
        if v < 0.3 and p["cb"] != "kbd":
            faults.append(dict(kind="sigint", t=rng.uniform(0.3, T * 0.8), lines=rng.choice([0, rng.randint(1, 200)])))
        elif v < 0.45:
            faults.append(dict(kind="io_error", op=rng.choice(["write", "open"]), path=rng.choice(["*.pkl", "evaluations.log"]),
                               n=rng.randint(2, 7), count=rng.choice([1, 3])))
        elif v < 0.55:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.1, T), idx=0))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        root = os.getcwd()
        for d in ("nest", "homedir", "elsewhere", "out_other", "cache"):
            os.mkdir(d)
        for f in ("notes.txt", "evaluations.log", "gama.log", "memory.log", "nest/keep.log", "out_other/evaluations.log", "cache/a.pkl",
                  "homedir/gama.log", "elsewhere/memory.log"):
            with seams.R["open"](f, "w") as fh:
                fh.write(f"sentinel {f}\n" * 3)
        os.environ["HOME"] = os.path.join(root, "homedir")
        rel = {"new": "out", "empty": "out", "nested": "nest/out", "home": "~/out", "auto": None, "absolute": os.path.join(root, "nest/out2")}[p["where"]]
        path = None if rel is None else os.path.abspath(os.path.expanduser(rel))
        if p["where"] == "empty" or p["mode"] == "nonempty":
            if path is None:
                rel, path = "out", os.path.join(root, "out")
            os.mkdir(path)
        if p["mode"] == "nonempty":
            f = os.path.join(path, p["content"])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with seams.R["open"](f, "w") as fh:
                fh.write("mine")
        before = tree(root)
        over = dict(output_directory=rel)
        q = dict(p)
        if p["mode"] in ("nonempty", "invalid") and p.get("bad"):
            q.update(p["bad"])
        if p["mode"] != "fit":
            try:
                make_gama(w, q, **over)
            except Exception as x:
                if not isinstance(x, (ValueError, TypeError)):
                    w.violate("refusal", f"refused with {short(x)}")
            else:
                w.violate("accepted", f"constructed with {'a non-empty output directory' if p['mode'] == 'nonempty' else p['bad']}")
            self.same(w, before, tree(root), None, root, "although the constructor refused its input")
            w.nontrivial = True
            return
        g = make_gama(w, p, **over)
        if path is None:
            new = [k for k, v in tree(root).items() if k not in before and v is None and os.sep not in k]
            if len(new) != 1:
                w.violate("directory", f"expected one new directory, got {new}")
                return
            path = os.path.join(root, new[0])
        ev = Events(w, g)

        def cb(e):
            if p["cb"] == "raise":
                raise ValueError("callback")
            if p["cb"] == "kbd" and len(ev) == 3:
                s.fire("callback_interrupt")
                raise KeyboardInterrupt

        if p["cb"]:
            g.evaluation_completed(cb)
        if p["chdir"]:
            os.chdir("elsewhere")
        X, y = w.data(kind=p["task"])
        exc = fit(w, g, X, y)
        os.chdir(root)
        after = tree(root)
        self.same(w, before, after, path, root, "by a search with its own output directory")
        if exc is None:
            self.artefacts(w, p, path, ev)
        w.nontrivial = exc is None
        w.probes["returned"] = int(exc is None)

    def same(self, w, before, after, path, root, why):
        own = None if path is None else os.path.relpath(path, root)
        d = [(k, f) for k, f in tree_diff(before, after) if own is None or (f != own and not f.startswith(own + os.sep))]
        if d:
            w.violate("outside", f"{d[:5]} {why}")
        if w.sim.escapes:
            w.violate("outside", f"file operations outside of the working area: {w.sim.escapes[:5]}")

    def artefacts(self, w, p, path, ev):
        have = tree(path) if os.path.isdir(path) else None
        st = p["store"]
        if st == "nothing":
            if os.path.exists(path):
                w.violate("left", f"store='nothing', but {sorted(have)[:5]} and the output directory remain")
            return
        if have is None:
            w.violate("missing", f"store={st!r}, but the output directory is gone")
            return
        top = {k.split(os.sep)[0] for k in have}
        logs = {k for k in top if k.endswith(".log")}
        want = LOGS if st in ("logs", "all") else set()
        if logs != want or top - logs - {"cache"}:
            w.violate("logs", f"store={st!r}: files {sorted(top)}, expected logs {sorted(want)}")
        if st == "logs" and "cache" in top:
            w.violate("cache", "store='logs', but the model cache remains")
        if st in ("models", "all"):
            if "cache" not in top:
                w.violate("cache", f"store={st!r}, but there is no model cache")
            else:
                pk = [k for k in have if k.startswith("cache" + os.sep)]
                full = {e["id"] for e in ev if e["error"] is None}
                if any(not k.endswith(".pkl") for k in pk):
                    w.violate("cache", f"store={st!r}: the cache holds {sorted(pk)[:5]}")
                ids = {os.path.basename(k)[:-4] for k in pk}
                if not ids <= full or len(ids) > (p["max_models"] if p["post"] == "ens" else 0):
                    w.violate("cache", f"store={st!r}: {len(ids)} cached models, {len(full)} full evaluations, limit "
                                       f"{p['max_models'] if p['post'] == 'ens' else 0}")
                if p["post"] == "ens" and not w.faults and not p["cb"] and len(ids) < min(p["max_models"], len(full)) - 1:
                    w.violate("cache", f"store={st!r}: only {len(ids)} of {min(p['max_models'], len(full))} models are kept")
        if st in ("logs", "all"):
            with seams.R["open"](os.path.join(path, "evaluations.log")) as fh:
                n = fh.read().count("\n")
            if n < 1:
                w.violate("logs", "the evaluation log is empty")

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C15()
