"""C17: warm-start candidates are evaluated first."""
from ..lib import (Check, Events, Watch, base_cfg, behaviours, cheapen, fit, gama_params, make_gama, make_search, short, tb, tune, warm)

KINDS = ["raise", "memerr", "fail_score", "hang_py", "slow"]
LENS = [1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 20, 49, 50, 51, 60]


class NotOne:
    """Looks a bit like an individual."""
    fitness = None
    main_node = None
    _id = "x"

    def pipeline_str(self):
        return "x"


class C17(Check):
    id = "C17"
    quick_runs = 700
    thorough_runs = 30000
    nontrivial = "start candidates were given (or taken from an earlier fit) and evaluations took place"
    assumptions = ["the same individual is not listed twice"]

    def gen(self, rng, i, tier):
        cheap = rng.random() < 0.85
        cfg = base_cfg(rng, behaviours=behaviours(rng, KINDS, rng.choice([0.2, 0.7])), final_fit_time=0.05)
        p = gama_params(rng, post="best", max_total_time=rng.choice([6, 10, 15]), n_jobs=rng.choice([1, 1, 2, 3, 4, 6]), cheap=cheap,
                        population_size=rng.choice([None, None, 1, 2, 3, 10]), store=rng.choice(["logs", "nothing", "all"]))
        if p["search"] == "ea":
            p["max_n_evaluations"] = rng.choice([None, None, None, 1, 4, 30])
        ops = []
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            kind = rng.choice(["list", "list", "list", "none", "bad", "own", "mixed", "empty"])
            if k == 0 and kind in ("own", "mixed"):
                kind = "list"
            op = dict(kind=kind)
            if kind == "mixed":
                op["n"] = rng.choice([1, 2, 5, 20])
                op["at"] = rng.randrange(3)
            if kind == "list":
                op["n"] = rng.choice(LENS)
                op["twins"] = rng.random() < 0.3
            if kind == "bad":
                op["n"] = rng.choice([1, 2, 3, 10])
                op["at"] = rng.randrange(op["n"])
                op["what"] = rng.choice(["str", "pipeline", "object", "none"])
            ops.append(op)
        p["ops"] = ops
        tune(rng, cfg, p, (20, 150) if cheap else (8, 30))
        faults = []
        if rng.random() < 0.2:
            faults.append(dict(kind="sigint", t=rng.choice([rng.uniform(0, 0.5), rng.uniform(0, 12)]), lines=rng.choice([0, 0, 3])))
        if rng.random() < 0.2:
            faults.append(dict(kind="kill_worker", t=rng.uniform(0.2, 8), idx=rng.randrange(4)))
        return dict(cfg=cfg, params=p, faults=faults)

    def run(self, w):
        p, s = w.params, w.sim
        if p["cheap"]:
            cheapen(w)
        X, y = w.data(kind=p["task"])
        watch = Watch(w)
        search = make_search(p)
        g = make_gama(w, p, search=search)
        ev = Events(w, g)
        selected = []
        given_total = 0
        for k, op in enumerate(p["ops"]):
            what = f"fit {k + 1} ({op})"
            given = None
            expect = None
            if op["kind"] == "list":
                given = warm(g, op["n"])
                if op.get("twins") and op["n"] > 1:
                    given[0] = given[-1].copy_as_new()
            elif op["kind"] == "own":
                given = list(reversed(selected))
            elif op["kind"] == "mixed":  # some have been evaluated by the previous fit
                new = warm(g, op["n"])
                given = [new + selected, selected + new, new[:len(new) // 2] + selected[:2] + new[len(new) // 2:]][op["at"]]
            elif op["kind"] == "bad":
                given = warm(g, op["n"])
                given[op["at"]] = dict(str=given[0].pipeline_str(), pipeline=given[0].pipeline, object=NotOne(), none=None)[op["what"]]
            elif op["kind"] == "empty":
                given = []
            if op["kind"] in ("list", "own", "mixed") and given:
                expect = list(given)
            elif given is None:
                expect = list(selected)
            kept = list(given) if given is not None else None
            pipes = [i.pipeline_str() for i in expect] if expect else []
            n0, procs0, e0 = len(watch.log), len(s.procs), len(ev.items)
            out0 = list(search.output)
            exc = fit(w, g, X, y, warm_start=given)
            log = watch.log[n0:]
            if kept is not None and (len(kept) != len(given) or any(a is not b for a, b in zip(kept, given))):
                w.violate("list_changed", f"{what}: the caller's list had {len(kept)} elements and has {len(given)} now, or others")
                return
            if op["kind"] == "bad":
                if not isinstance(exc, TypeError):
                    w.violate("accepted", f"{what}: fit with {op['what']} at position {op['at']} of {op['n']} gave {short(exc) if exc else 'no error'}")
                    return
                if len(s.procs) != procs0 or log:
                    w.violate("started", f"{what}: refused only after the search had started")
                    return
                if [id(i) for i in search.output] != [id(i) for i in out0]:
                    w.violate("selection_lost", f"{what}: the refused call changed the selection of the previous fit")
                    return
                continue
            if expect:
                given_total += len(expect)
                if not self.judge(w, p, what, expect, pipes, log, ev.items[e0:], exc):
                    return
            selected = list(search.output)
            w.nontrivial = w.nontrivial or bool(expect and any(r["op"] == "done" for r in log))
        w.probes["given"] = given_total

    def judge(self, w, p, what, expect, pipes, log, events, exc):
        want = {str(i._id): q for i, q in zip(expect, pipes)}
        first_new = None
        seen = {}
        asha = p["search"] == "asha"
        for r in log:
            if r["op"] != "submit":
                continue
            iid = r["iid"]
            if iid in want:
                if r["pipe"] != want[iid]:
                    w.violate("changed", f"{what}: start candidate {want[iid]} was submitted as {r['pipe']}")
                    return False
                if asha and iid in seen and r["args"][1] > seen[iid]:
                    seen[iid] = r["args"][1]  # promoted
                    continue
                if iid in seen:
                    w.violate("twice", f"{what}: start candidate {want[iid]} was submitted twice")
                    return False
                if first_new is not None:
                    w.violate("late", f"{what}: {len(seen)} of {len(want)} start candidates, then a new one ({first_new['pipe']}), then another start candidate")
                    return False
                seen[iid] = r["args"][1] if asha else 0
            elif first_new is None:
                if asha and r["ind"].meta.get("rung") is not None:
                    continue
                first_new = r
                missing = [i for i in want if i not in seen]
                if missing:
                    same = [i for i in missing if want[i] == r["pipe"]]
                    w.violate("identity" if same else "not_first",
                              f"{what}: after {len(seen)} of {len(want)} start candidates {r['pipe']} was submitted" +
                              (" (the pipeline of a start candidate under another identity)" if same else "") + ", a new candidate")
                    return False
        first = [r for r in log if r["op"] == "submit"][:1]
        missing = [i for i in want if i not in seen]
        ndone = sum(r["op"] == "done" for r in log)
        if missing and not asha and ndone:
            w.violate("missing", f"{what}: {len(missing)} of {len(want)} start candidates were never submitted although {ndone} evaluations completed")
            return False
        if missing and asha and ndone >= 3 * len(want) + 8:
            w.violate("missing", f"{what}: {len(missing)} of {len(want)} start candidates were never submitted although {ndone} evaluations completed")
            return False
        if not first and (exc is None or not isinstance(exc, KeyboardInterrupt) and not any(f["kind"] == "sigint" for f in w.faults)):
            w.violate("missing", f"{what}: nothing was submitted" + (f", fit failed with {short(exc)}" if exc else ""))
            return False
        for e in events:
            if e["id"] in want and e["pipe"] != want[e["id"]]:
                w.violate("changed", f"{what}: start candidate {want[e['id']]} is announced as {e['pipe']}")
                return False
        if not asha:
            ids = [e["id"] for e in events if e["id"] in want]
            if len(ids) != len(set(ids)):
                w.violate("twice", f"{what}: a start candidate was announced twice")
                return False
        return True

    def stuck(self, w, kind, msg):
        w.violate("stuck", f"fit does not end: {kind} {msg}")


CHECK = C17()
