"""Writes /verif/MANIFEST.json."""
import json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences; oracle: "
ORACLE = {
    "C01": "simulated time of return against the budget",
    "C02": "simulated process table after fit or pool exit",
    "C03": "exactly-once history check of submit/execute/wait",
    "C04": "evaluation records against the scripted failures",
    "C05": "delivery history against what the search received",
    "C06": "bytes on disk against the announced evaluations, also after crashes and failed writes",
    "C07": "small reference model of the library, disk faults",
    "C08": "selected model recomputed from the evaluation history",
    "C09": "population replayed from the completion order",
    "C10": "reference model of the promotion rule run over the history",
    "C11": "submitted pipelines against the search space definition",
    "C12": "pairs of runs with different timing and hash seeds compared",
    "C13": "memory trajectories against the kills in the process table",
    "C14": "worker deaths against replacements, completions and losses",
    "C15": "file tree before and after",
    "C16": "operation sequences over several instances, isolation of results and files",
    "C17": "order of submissions against the given list",
    "C18": "evaluations in flight and worker idle times",
    "C19": "scores, predictions and times recomputed from the returned models",
    "C20": "reports opened and updated at random moments against the announced evaluations",
}
NA = {
    "C90": "a pure function of the selected pipeline: no schedule, clock, I/O fault or process takes part, so a seeded scheduler has nothing to decide",
    "C91": "a pure function of the given table: no concurrency, time or faults; only its input varies, which is property-based testing, not simulation",
    "C92": "pure functions over lists of numbers without any scheduling, time or I/O",
    "C93": "parsing of a dictionary or string, pure and sequential",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(
        property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
        technique=TECH + ORACLE[i], level="exploration",
        level_note="seeded random exploration of simulated executions of the real gama code (worker processes, queues, clocks, timers, signals and scripted estimators simulated); "
                   "no exhaustiveness is claimed"))
m = dict(version=1, setup_cmd="./setup.sh",
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks))
