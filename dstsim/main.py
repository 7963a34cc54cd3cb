"""Command line: check / replay / selftest."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def reexec():
    env = dict(os.environ)
    want = dict(PYTHONHASHSEED=os.environ.get("DSTSIM_HASHSEED", "0"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
                PYTHONUNBUFFERED="1", PYTHONUTF8="1")
    if any(env.get(k) != v for k, v in want.items()):
        env.update(want)
        env.pop("PYTHONPYCACHEPREFIX", None)
        os.execve(sys.executable, [sys.executable, "-m", "dstsim.main"] + sys.argv[1:], env)


def load(pid):
    mod = importlib.import_module(f"dstsim.props.{pid.lower()}")
    return mod.CHECK


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r["property"] == pid and r.get("status") == "known":
                    out.append(r)
    return out


def main():
    reexec()
    sys.path.insert(0, VERIF)
    from . import runner

    cmd = sys.argv[1]
    if cmd == "check":
        pid, tier = sys.argv[2], (sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick"))
        runner.boot()
        from . import campaign
        sys.exit(campaign.run(load(pid), tier, int(os.environ.get("VERIF_SEED", "1")), known_findings(pid)))
    if cmd == "replay":
        rep = json.load(open(sys.argv[2]))
        runner.boot()
        from . import campaign
        sys.exit(campaign.replay(load(rep["property"]), rep, sys.argv[2], "-v" in sys.argv))
    if cmd == "selftest":
        runner.boot()
        from . import campaign
        sys.exit(campaign.selftest([load(p) for p in sys.argv[3:]], int(sys.argv[2])))
    if cmd == "hashes":  # used by selftest in fresh interpreters
        runner.boot()
        from . import campaign
        campaign.hashes(load(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]))
        sys.exit(0)
    if cmd == "results":  # the results of the cases on stdin (for comparison across interpreters)
        cases = json.load(sys.stdin)
        runner.boot()
        from . import campaign
        campaign.results_of(load(sys.argv[2]), cases)
        sys.exit(0)
    if cmd == "case":  # run one case file, print the result
        case = json.load(open(sys.argv[3]))
        runner.boot()
        pool = runner.Pool(load(sys.argv[2]), 1)
        try:
            print(json.dumps(pool.one(case, want_trace="-v" in sys.argv), indent=1))
        finally:
            pool.close()
        sys.exit(0)
    print("usage: check ID [quick|thorough] | replay FILE | selftest N ID...", file=sys.stderr)
    sys.exit(2)


if __name__ == "__main__":
    main()
