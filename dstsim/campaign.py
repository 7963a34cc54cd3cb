"""Seeded search over cases of one property: report, minimise, replay, evidence."""
import hashlib
import json
import os
import subprocess
import sys
import time

from . import engine, runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = ["gama (all modules, from /repo, unmodified and without hooks)", "scikit-learn cross-validation, pipelines, metrics",
        "stopit timeout contexts", "pandas / numpy", "file contents (real files in a scratch directory)"]
STUB = ["estimators and transformers of the search space (scripted duration, failure, memory, quality)",
        "multiprocessing processes and queues", "psutil process table and memory readings",
        "clocks, timers, sleep, asynchronous exceptions", "random / uuid entropy (seeded, per process)",
        "process crash, signals and file errors (injected)"]


def make_case(check, seed, i, tier):
    rng = engine.stream(seed, check.id, i)
    case = check.gen(rng, i, tier)
    case["seed"] = rng.getrandbits(40)
    case["cfg"].setdefault("env_seed", case["seed"])
    return json.loads(json.dumps(case))


def matches(finding, kind, case, msg):
    sig = finding["signature"]
    return kind == sig["kind"] and all(sub in msg for sub in sig.get("contains", []))


def split(violations, known, case):
    new, old = [], []
    for kind, msg in violations:
        for f in known:
            if matches(f, kind, case, msg):
                old.append((f, kind, msg))
                break
        else:
            new.append((kind, msg))
    return new, old


def run(check, tier, seed, known):
    t0 = time.time()
    n = check.quick_runs if tier == "quick" else check.thorough_runs
    budget = getattr(check, "quick_wall", 240) if tier == "quick" else getattr(check, "thorough_wall", 3000)
    print(f"{check.id} tier={tier} seed={seed} runs={n}", flush=True)
    pool = runner.Pool(check)
    failing, gaps, results = [], [], []
    seen_known = {}
    stats = dict(sim_time=0.0, steps=0, fired={}, probes={})
    orders, nontrivial = set(), set()
    samples = []
    state = dict(stop=False)

    def cases():
        for j, c in enumerate(check.directed(tier)):
            c.setdefault("seed", 7000 + j)
            c["cfg"].setdefault("env_seed", c["seed"])
            yield ("d", j), json.loads(json.dumps(c))
        for i in range(n):
            yield ("r", i), make_case(check, seed, i, tier)

    def stop():
        return bool(failing) or time.time() - t0 > budget

    nruns = 0
    try:
        for tag, case, res in pool.map(cases(), stop):
            nruns += 1
            if res["gap"]:
                gaps.append((tag, res["gap"]))
                continue
            new, old = split(res["violations"], known, case)
            for f, k, m in old:
                seen_known.setdefault(f["id"], (f, k, m))
            stats["sim_time"] += res.get("sim_time", 0.0)
            stats["steps"] += res.get("steps", 0)
            for d in ("fired", "probes"):
                for k, v in (res.get(d) or {}).items():
                    stats[d][k] = stats[d].get(k, 0) + v
            if res.get("order"):
                orders.add(res["order"])
                if res.get("nontrivial"):
                    nontrivial.add(res["order"])
            if len(samples) < 5 and tag[0] == "r":
                samples.append(json.dumps(dict(i=tag[1], seed=case["seed"], params=case.get("params"),
                                               faults=case.get("faults")))[:600])
            if new:
                failing.append((tag, case, new))
            else:
                results.append((tag, case, res))
        if not failing:
            for kind, msg, case in check.post(results):
                failing.append((("p", 0), case, [(kind, msg)]))
        wall = time.time() - t0
        code = 0
        for f, k, m in seen_known.values():
            print(f"KNOWN-FINDING: property={check.id} {f['what']}")
        replay_path = None
        if failing:
            failing.sort(key=lambda x: (x[0][0] != "d", x[0][1]))
            tag, case, new = failing[0]
            kind, msg = new[0]
            print(f"violation in run {tag}: {kind}: {msg[:1500]}", flush=True)
            case, msg, res = minimise(check, pool, case, kind, msg, known)
            replay_path = write_replay(check, case, kind, msg, res)
            code = 1
            print(f"VIOLATION property={check.id} replay={replay_path}", flush=True)
        elif gaps and len(gaps) > max(2, 0.2 * nruns):
            code = 2
            print(f"no answer: {len(gaps)} of {nruns} runs could not be simulated; first: {gaps[0]}", flush=True)
        elif nruns < min(10, n):
            code = 2
            print(f"no answer: only {nruns} runs finished in time", flush=True)
        evidence(check, tier, seed, nruns, wall, stats, orders, nontrivial, samples, gaps, failing, seen_known, replay_path)
        print(f"{check.id}: {nruns} runs, {len(gaps)} gaps, {len(orders)} distinct interleavings, "
              f"{stats['sim_time']:.0f} simulated s, {wall:.1f} s wall, exit {code}", flush=True)
        if gaps:
            print("first gap:", gaps[0], flush=True)
        return code
    finally:
        pool.close()


def elsewhere(check, cases, hashseed):
    """The same cases in a fresh interpreter with another hash seed."""
    env = dict(os.environ, DSTSIM_HASHSEED=str(hashseed), PYTHONHASHSEED=str(hashseed))
    o = subprocess.run([sys.executable, "-m", "dstsim.main", "results", check.id], env=env, capture_output=True, text=True,
                       input=json.dumps(cases))
    return json.loads(o.stdout.strip().splitlines()[-1])


def results_of(check, cases):
    pool = runner.Pool(check)
    out = {}
    try:
        for tag, case, res in pool.map(enumerate(cases)):
            out[tag] = dict(result=res.get("result"), gap=res["gap"], violations=res["violations"])
    finally:
        pool.close()
    print(json.dumps([out[i] for i in range(len(cases))]))


def run_case(check, pool, case, want_trace=False):
    res = pool.one(case, want_trace=want_trace)
    if case.get("cross") and not res["gap"]:
        other = elsewhere(check, [case], case["cross"])[0]
        msg = None if other["gap"] else check.compare(json.loads(json.dumps(res.get("result"), default=str)), other["result"])
        if msg:
            res["violations"].append(["hashseed", msg])
    return res


def still(check, pool, case, kind, known):
    res = run_case(check, pool, case)
    for k, m in split(res["violations"], known, case)[0]:
        if k == kind:
            return m, res
    return None


def minimise(check, pool, case, kind, msg, known, max_runs=60, max_wall=90):
    """Greedy: keep any simplification under which the same kind of violation shows."""
    if kind == "stuck":
        max_wall = 30
    t0, runs = time.time(), 0
    best = still(check, pool, case, kind, known)
    if best is None:
        best = (msg, {})
        return case, msg + " [not reproduced in isolation]", {}
    progress = True
    while progress and runs < max_runs and time.time() - t0 < max_wall:
        progress = False
        for cand in check.shrink(case):
            if runs >= max_runs or time.time() - t0 > max_wall:
                break
            runs += 1
            r = still(check, pool, cand, kind, known)
            if r is not None:
                case, best, progress = cand, r, True
                break
    print(f"minimised with {runs} runs: {len(case.get('faults', []))} faults left", flush=True)
    return case, best[0], best[1]


def write_replay(check, case, kind, msg, res):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{check.id}-{h}.json")
    with open(path, "w") as fh:
        json.dump(dict(property=check.id, kind=kind, message=msg, case=case, trace=res.get("trace"),
                       how="cd /verif && ./replay.sh <this file>"), fh, indent=1)
    return path


def replay(check, rep, path, verbose=False):
    pool = runner.Pool(check, 1)
    try:
        res = run_case(check, pool, rep["case"], want_trace=verbose)
    finally:
        pool.close()
    if verbose:
        print("\n".join(res.get("tail", [])))
    hit = [m for k, m in res["violations"] if k == rep["kind"]]
    same = res.get("trace") == rep.get("trace")
    print(f"replay: kind={rep['kind']} reproduced={bool(hit)} identical_trace={same}")
    if res["gap"]:
        print("gap:", res["gap"])
    if hit:
        print(hit[0])
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    print("other violations:", res["violations"])
    return 0


def hashes(check, seed, n, slots):
    pool = runner.Pool(check, slots)
    out = {}
    try:
        for tag, case, res in pool.map(((i, make_case(check, seed, i, "quick")) for i in range(n))):
            out[tag] = [res.get("trace"), res["gap"] and str(res["gap"])[:200], res["violations"]]
    finally:
        pool.close()
    print(json.dumps(out, sort_keys=True))


def selftest(checks, n):
    """Determinism: the same runs in fresh interpreters, at other worker counts and hash seeds."""
    bad = 0
    for c in checks:
        outs = []
        for slots, hs in ((8, "0"), (3, "0"), (8, "12345")):
            env = dict(os.environ, DSTSIM_HASHSEED=hs, PYTHONHASHSEED=hs)
            o = subprocess.run([sys.executable, "-m", "dstsim.main", "hashes", c.id, "99", str(n), str(slots)],
                               env=env, capture_output=True, text=True)
            outs.append(json.loads(o.stdout.strip().splitlines()[-1]))
        diff = [[k for k in outs[0] if outs[0][k] != o[k]] for o in outs[1:]]
        gaps = [v[1] for v in outs[0].values() if v[1]]
        print(f"{c.id}: {n} runs x3, differing: worker count {diff[0]}, hash seed {diff[1]}; gaps {len(gaps)}",
              flush=True)
        bad += bool(diff[0]) + bool(diff[1])
    return 1 if bad else 0


def evidence(check, tier, seed, nruns, wall, stats, orders, nontrivial, samples, gaps, failing, seen_known, replay_path):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(
        property=check.id, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=nruns,
            distinct_nontrivial=len(nontrivial),
            rule=("one evaluation = one simulated execution of the scenario on the real code; distinct = distinct "
                  "sequences of (process, seam kind) scheduling decisions, i.e. interleavings; every counted run "
                  "executes the scenario to its end or to an injected crash. Non-trivial: " + check.nontrivial),
            samples=samples or ["none"],
            runs_and_seeds_per_hour=round(nruns / max(wall, 1e-9) * 3600),
            simulated_seconds=round(stats["sim_time"], 1),
            scheduler_steps=stats["steps"],
            faults_injected=stats["fired"],
            probes=stats["probes"],
            distinct_interleavings_all_runs=len(orders),
            not_simulated=len(gaps),
            components_real=REAL, components_stub=STUB,
        ),
        wall_s=round(wall, 2),
        assumptions=check.assumptions,
        violations=sum(len(new) for _, _, new in failing),
        violation_samples=[dict(kind=k, message=m[:500], replay=replay_path) for _, _, new in failing for k, m in new][:10],
        known_findings=[f["id"] for f, _, _ in seen_known.values()],
    )
    with open(os.path.join(d, f"{check.id}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
