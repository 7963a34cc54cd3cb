"""Writes /verif/properties.jsonl (kept as code so that it stays reviewable)."""
import json, pathlib

AE = "gama/utilities/generic/async_evaluator.py"
GA = "gama/gama.py"
SK = "gama/genetic_programming/compilers/scikitlearn.py"
EA = "gama/search_methods/async_ea.py"
AS = "gama/search_methods/asha.py"
RS = "gama/search_methods/random_search.py"
LIB = "gama/utilities/evaluation_library.py"
LOG = "gama/logging/evaluation_logger.py"
REP = "gama/logging/GamaReport.py"
ENS = "gama/postprocessing/ensemble.py"
BF = "gama/postprocessing/best_fit.py"
OPS = "gama/genetic_programming/operator_set.py"
TK = "gama/utilities/generic/timekeeper.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, **more):
    if "observe_at" in more:
        more["observe_at"] = [more["observe_at"]]
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **more)))


prop("C01", "fit stops when its time budget is spent",
     "The search phase of fit uses the share of the time left after preprocessing that is not reserved for "
     "post-processing and, unless an evaluation cap or a user interrupt ends it earlier, stops when that share is spent. "
     "fit then returns within a fixed shutdown allowance (about 15 seconds) plus the time needed to train the final model, "
     "whatever evaluations do (hang in native code, ignore the stop signal, crash, raise, overrun) and whatever user callbacks do (raise, run slow, swallow the stop signal while evaluations keep completing), "
     "and, with well-behaved callbacks, also when the wall clock jumps during the search.",
     ["schedules", "fault_sequences", "configurations"],
     "every search method, number of jobs, post-processing, interleaving of workers, evaluation behaviour, callback behaviour and clock jump",
     "tests run one benign 60 s search on a real clock; they cannot make an evaluation hang at the deadline, swallow the timeout at a chosen instant, or step the clock",
     [GA, TK, AE, SK],
     [("search deadline and timeout context", GA + ":_search_phase"),
      ("swallowed-timeout guard", GA + ":_safe_outside_call"),
      ("forced shutdown of workers", AE + ":AsyncEvaluator.__exit__")],
     observe_at="simulated time at which fit returns", hook_needed=None)

prop("C02", "No worker process outlives the search",
     "When fit returns or raises, for whatever reason (budget spent, evaluation cap, user interrupt, a failing callback or search step, a failure while starting workers), "
     "every worker process that was started for it has ended and has been reaped, so that neither running nor zombie children remain, and no message left unsent to them keeps the program from ending. "
     "The same holds for a directly used evaluator pool when its context is left, also if a single interrupt or timeout arrives while the pool is being shut down.",
     ["schedules", "crash_points", "fault_sequences"],
     "every instant at which a timeout or an interrupt can arrive, every state a worker can be in (idle, busy, stuck in native code, already dead)",
     "tests never interrupt a search and do not look at the process table afterwards",
     [AE, GA, AS, EA, RS],
     [("pool shutdown", AE + ":AsyncEvaluator.__exit__"), ("pool start", AE + ":AsyncEvaluator.__enter__"),
      ("stop one worker", AE + ":_stop_worker_process")],
     observe_at="simulated process table", hook_needed=None)

prop("C03", "Submitted evaluations complete exactly once with their own result",
     "Every call submitted to the evaluator pool is executed exactly once by a worker, with the submitted arguments plus the pool-wide defaults, and is handed back exactly once as the very same handle that submit returned, "
     "carrying that call's result, or that call's exception and traceback if it raised (a memory error included). "
     "Waiting never hands back a call that was not submitted or was handed back before, and asking for a completed call when none is outstanding raises an error instead of blocking; entering the same pool twice is refused.",
     ["schedules", "inputs", "histories"],
     "every interleaving of any number of workers with submit and wait calls, every queue latency, every mix of results and exceptions, while no worker is killed",
     "unit tests submit a handful of calls on one real interleaving",
     [AE],
     [("submit/wait", AE + ":submit, wait_next"), ("worker loop", AE + ":evaluator_daemon"), ("call record", AE + ":AsyncFuture.execute")],
     observe_at="return values of submit and wait_next; executions seen by the workers", hook_needed=None)

prop("C04", "A failing or overrunning pipeline is contained and reported as failed",
     "A pipeline that raises, runs out of memory or exceeds its per-evaluation time limit (max_eval_time, or less if the search deadline is nearer; the successive-halving search uses its own per-rung limit) is reported as one evaluation that carries the error, "
     "a score of minus infinity for every metric and no models or predictions, no matter at which point of the evaluation it failed. "
     "Unless it swallows the stop signal it is cut off at the limit as soon as it runs interruptible code, and neither it nor its error affects other evaluations or stops the search.",
     ["inputs", "schedules", "fault_sequences"],
     "every failure kind at every point of an evaluation (any fold, fit, scoring, prediction), every timing of the limit relative to the evaluation and to the search deadline",
     "tests cover one failing and one slow pipeline; they cannot place the failure or the timeout between two statements of the evaluation",
     [SK, AE, OPS],
     [("evaluation with timeout", SK + ":evaluate_pipeline"), ("deadline handling", SK + ":evaluate_individual"), ("worker loop", AE + ":evaluator_daemon")],
     observe_at="evaluation events", hook_needed=None)

prop("C05", "Every completed evaluation reaches every subscriber exactly once",
     "Each evaluation that the search receives is delivered exactly once to every callback registered for completed evaluations, in the order of completion, with callbacks called in order of registration, and the built-in bookkeeping (library and log) sees the same set. "
     "A callback that raises affects neither the other callbacks, nor later deliveries, nor the search; a keyboard interrupt raised in a callback ends the search.",
     ["schedules", "inputs", "fault_sequences"],
     "every search method, number of workers and interleaving; every pattern of raising callbacks",
     "tests register no failing callback and do not count deliveries under concurrency",
     [GA, OPS],
     [("event delivery", GA + ":_on_evaluation_completed, _safe_outside_call"), ("hand-over from pool", OPS + ":wait_next")],
     observe_at="calls of the registered callbacks", hook_needed=None)

prop("C06", "The evaluation log on disk is complete, exact and crash-safe",
     "As soon as an evaluation has been announced, the evaluation log file holds exactly one parseable record for it, in order of completion, with its id, process id, start time, duration, score, pipeline, error and the search method's extra fields (parents and origin, or rung and sample size), whatever text the error contains. "
     "If the program is killed at any instant, the file holds the header and the records of all evaluations announced so far, except that the last record may be cut short; a failed write that leaves no bytes behind loses at most the record being written.",
     ["crash_points", "inputs", "fault_sequences"],
     "every crash instant, every error text, every search method and interleaving, single failed writes",
     "tests never crash the process mid-search nor make a pipeline fail with unusual text",
     [LOG, GA, EA, AS],
     [("record writer", LOG + ":log_line, log_evaluation"), ("subscription", GA + ":__init__")],
     observe_at="bytes of evaluations.log", hook_needed=None)

prop("C07", "The evaluation library keeps exactly the best m results usable",
     "After any sequence of saved evaluations the library lists every saved evaluation exactly once, its best m successful evaluations (by score) are in the top list with their fitted models and (sampled) predictions retrievable unchanged, "
     "every other evaluation keeps its score and error but no models, predictions or cache file, and the cache directory contains one file per top evaluation and nothing else. "
     "A write to the cache that fails affects at most the evaluation being saved.",
     ["inputs", "histories", "fault_sequences"],
     "every order of scores, ties and failures, every m and sample size, every point at which a disk write fails",
     "tests save a few evaluations in fixed orders on a healthy disk",
     [LIB, GA],
     [("top-m maintenance", LIB + ":save_evaluation"), ("cache files", LIB + ":Evaluation.to_disk, remove_from_disk"), ("sampling", LIB + ":_process_predictions")],
     observe_at="library lists and cache directory", hook_needed=None)

prop("C08", "fit yields a usable model built from the best successful result",
     "If at least one evaluation succeeded (since the last restart; for an ensemble a full, not subsampled, one), then however the search ended (budget, evaluation cap, user interrupt during the search) fit leaves a model that predicts: single-model post-processing trains the best individual of the search's final selection on all training data, never one whose evaluation failed, "
     "and ensemble post-processing combines only successful evaluations from the best max_models, with integer weights that add up to the ensemble size, using the models fitted during their evaluation.",
     ["schedules", "fault_sequences", "configurations"],
     "every ending instant, failure pattern, completion order, search method and post-processing",
     "tests check that some model predicts after one benign search",
     [GA, BF, ENS, EA, AS, RS],
     [("selection", GA + ":fit"), ("single model", BF + ":post_process"), ("ensemble", ENS + ":build_fit_ensemble")],
     observe_at="gama.model after fit", hook_needed=None)

prop("C09", "Evolutionary search keeps a valid, bounded population and its evaluation cap",
     "The asynchronous evolutionary search never holds more than population_size individuals (one more only if an interrupt ends it in the middle of a replacement), every individual it holds or returns was evaluated successfully since the last restart, no individual appears twice, and until the population first exceeds its size every successful one is kept; afterwards each surplus removes exactly one individual that no other member is worse than in every objective. "
     "With max_n_evaluations set, the search ends as soon as that many evaluations have completed, counting failed ones; when the restart callback asks for it, the population is emptied and population_size new random candidates are evaluated first.",
     ["schedules", "histories", "configurations"],
     "every interleaving and completion order, failure pattern, population size, evaluation cap and restart pattern",
     "tests run it with a mocked, synchronous evaluator or check only sizes at the end",
     [EA, OPS, "gama/genetic_programming/selection.py"],
     [("main loop", EA + ":async_ea"), ("elimination", "gama/genetic_programming/selection.py:eliminate_from_pareto")],
     observe_at="search.output at every evaluation event and after fit", hook_needed=None)

prop("C10", "Successive halving follows its promotion rule",
     "In the asynchronous successive halving search each completed evaluation is followed by exactly one new job: from the highest rung downwards, if one reduction_factor-th (rounded down) of the results of a rung below the top exceeds the number of candidates promoted from it, its best not yet promoted candidate is evaluated one rung higher, otherwise a new candidate starts at the lowest used rung. "
     "No candidate is promoted twice from the same rung or skips a rung, each evaluation trains on the sample size of its rung (minimum times reduction_factor to the power of the rung, at most the maximum; sizes that fit into the training part of a fold) without using the rows it is scored on, and only top-rung evaluations count as full evaluations. "
     "The search returns the candidates of the highest rung that holds a successful evaluation, also when it is interrupted early.",
     ["schedules", "configurations", "fault_sequences"],
     "every completion order, failure pattern, reduction factor, resource range, early-stopping rate and number of workers",
     "the unit test uses a mock evaluator that completes in order",
     [AS, SK],
     [("job selection", AS + ":asha.get_job"), ("rung evaluation", AS + ":evaluate_on_rung"), ("subsampling", SK + ":evaluate_pipeline")],
     observe_at="sequence of submissions and completions", hook_needed=None)

prop("C11", "Only pipelines from the search space and within the length limit are evaluated",
     "Every pipeline evaluated during a search ends in an estimator of the search space preceded only by its preprocessing steps, uses only hyperparameter values listed for that component, and has at most max_pipeline_length steps if that is set. "
     "This holds for randomly created, mutated and crossed-over candidates alike (given start candidates that obey the limits and a space with more than one pipeline); producing offspring never alters an already submitted candidate and never makes the search fail, for any population the completion order can give rise to.",
     ["schedules", "configurations", "histories"],
     "every search space shape, length limit, scoring with or without length regularisation, and every population that arises from a completion order",
     "operators are tested one at a time on fixed parents",
     [OPS, "gama/genetic_programming/mutation.py", "gama/genetic_programming/crossover.py", "gama/genetic_programming/selection.py", "gama/genetic_programming/operations.py"],
     [("variation", OPS + ":mate, mutate, create"), ("limits", "gama/genetic_programming/mutation.py:random_valid_mutation_in_place")],
     observe_at="individuals submitted to the pool and evaluation events", hook_needed=None)

prop("C12", "A seeded single-job search is reproducible regardless of timing",
     "Two searches with the same data, settings and random_state and n_jobs=1, constructed and fitted one after the other, evaluate the same pipelines in the same order with the same scores, as far as both get within their budget, for every search method and however long evaluations (below their time limit), queues and the operating system take. "
     "With an evaluation cap reached by both, they also select the same final pipeline.",
     ["schedules", "configurations"],
     "every pair of timings (evaluation durations, queue latencies, scheduling) and object identities",
     "tests compare nothing between two searches and cannot vary the timing",
     [GA, EA, AS, RS, AE],
     [("seeding", GA + ":__init__"), ("job order", EA + ":async_ea"), ("promotion ties", AS + ":asha.get_job")],
     observe_at="sequence of evaluation events", hook_needed=None)

prop("C13", "The memory limit is enforced by stopping the largest worker",
     "With a memory limit set, whenever the total memory of the main process and its workers is observed above the limit while waiting for results, the worker using the most memory, and only that one, is terminated; the main process is never a target and no worker is stopped while the total is within the limit. "
     "A stopped worker is replaced unless violations are frequent (at least 5% of evaluations since the last reduction) and others remain, the number of workers never exceeds n_jobs and never stays at zero, and the remaining workers keep evaluating.",
     ["schedules", "fault_sequences", "configurations"],
     "every memory usage trajectory of main and workers, number of workers and timing of polls",
     "memory use of real workers cannot be scripted in a unit test",
     [AE],
     [("memory control", AE + ":_control_memory_usage"), ("measurement", AE + ":_get_memory_usage")],
     observe_at="simulated process table", hook_needed=None)

prop("C14", "Losing a worker does not lose the search",
     "If a worker process dies unexpectedly (killed by the system, crash in native code, exit from within a pipeline), a replacement is running within a bounded time while the search waits for results, later evaluations complete normally, and fit still ends in time with a model. "
     "Only the evaluation that the dead worker was running may be lost, and its handle is never confused with another evaluation; this holds as long as fewer evaluations are lost than are in flight.",
     ["crash_points", "fault_sequences", "schedules"],
     "every instant at which a worker can die, for any worker and number of jobs, fewer deaths than candidates in flight",
     "tests never kill a worker",
     [AE, EA, AS, RS],
     [("dead worker detection", AE + ":_get_memory_usage"), ("wait loop", AE + ":wait_next")],
     observe_at="process table, evaluation events, fit result", hook_needed=None)

prop("C15", "After fit exactly the requested artefacts remain",
     "After fit returns, the output directory holds the log files only ('logs'), the model cache only ('models'), both ('all'), or does not exist ('nothing'), whether the search ended by budget, cap or interrupt, whatever failed in it and whichever post-processing was used. "
     "Constructing with a non-empty output directory is refused and leaves it untouched, invalid time, job, scoring or pipeline-length settings leave no new directory behind, and nothing outside the output directory is ever created, changed or removed.",
     ["configurations", "schedules", "fault_sequences"],
     "every store setting, search method, post-processing and ending",
     "tests check one ending per setting",
     [GA, LIB],
     [("retention", GA + ":cleanup, fit"), ("creation", GA + ":__init__")],
     observe_at="files below and beside the output directory", hook_needed=None)

prop("C16", "Repeated fits and several instances do not interfere",
     "fit can be called any number of times on the same instance, with the same or different data and any store setting, and each call gives a result that depends only on evaluations of that call (plus the start candidates taken from the previous result). "
     "Instances with their own search and post-processing objects, created or fitted in any order, use their own number of jobs, memory limit, budget, output directory and evaluation log, and no instance's fit fails or writes evaluations elsewhere because of another instance.",
     ["histories", "configurations", "schedules"],
     "every sequence of construct / fit / predict operations over several instances and store settings",
     "tests fit each instance once",
     [GA, AE, LIB, RS],
     [("evaluator settings", GA + ":__init__"), ("start population", GA + ":_search_phase"), ("library", LIB)],
     observe_at="directories, process table, models", hook_needed=None)

prop("C17", "Warm-start candidates are evaluated first",
     "With warm_start given, every individual of the list is submitted for evaluation before any newly generated candidate, each exactly once and with its own identity, and the caller's list is left as it was; without it, a later fit starts from the individuals the previous fit selected. "
     "Anything in the list that is not an individual is refused before the search starts.",
     ["schedules", "configurations", "histories"],
     "every list length (also one and two), search method, number of jobs, completion order and failure pattern",
     "tests warm-start one search method with a long list",
     [GA, EA, AS, RS],
     [("start candidates", GA + ":_search_phase"), ("submission", EA + ":async_ea")],
     observe_at="order of submissions", hook_needed=None)

prop("C18", "Workers are kept busy and never exceed n_jobs",
     "While a search with at least as many start candidates as jobs is running and no worker has been lost, the search never waits for results with fewer evaluations in flight than there are workers, so that no worker is idle for longer than the search needs to notice completed evaluations. "
     "n_jobs=-1 means one worker per CPU and None one per two CPUs, but at least one. At no time are more than n_jobs worker processes alive or more than n_jobs evaluations in progress, and searches do not run ahead: the number of evaluations in flight never exceeds the start candidates (or the workers plus two, if more), and the evolutionary search creates offspring only when at most one evaluation is waiting for a worker.",
     ["schedules", "configurations"],
     "every number of jobs (also more than eight), search method, distribution of evaluation times and failures, and interleaving",
     "utilisation depends on timing which unit tests do not control",
     [AE, EA, AS, RS],
     [("queue estimate", AE + ":job_queue_size"), ("refill", EA + ":async_ea")],
     observe_at="simulated workers", hook_needed=None)

prop("C19", "Reported scores belong to the pipeline and to unseen rows",
     "Whatever the index of the given data and wherever it has unlabeled rows (which are ignored), the score of a successful evaluation is the mean over the cross-validation folds of the metric on rows the fold's model was not trained on, its predictions hold for every row the prediction of the model that did not train on it, and its models and pipeline are those of the individual it names, "
     "however many evaluations run at the same time and whichever evaluations before it in the same worker failed or timed out. "
     "With length regularisation the score is extended by minus the number of steps, and the recorded duration and start time are those of that evaluation.",
     ["schedules", "inputs", "fault_sequences"],
     "every interleaving of evaluations over workers, every preceding failure in the same worker, subsampled or full training",
     "tests evaluate a single pipeline in isolation",
     [SK, AE],
     [("cross-validation", SK + ":evaluate_pipeline"), ("record", SK + ":evaluate_individual")],
     observe_at="evaluation events against what the simulated estimators saw", hook_needed=None)

prop("C20", "A report read at any moment of a search reconstructs the evaluations",
     "A report opened on the log directory of a finished search, with one or several metrics, with or without length regularisation, lists exactly the announced evaluations, each once, in order, with their scores, best scores so far, times, durations, errors and pipelines, together with the search method and the phases of the run. "
     "A report opened while the search is still running and updated at arbitrary moments arrives at the same evaluations as one opened at the end.",
     ["schedules", "histories", "configurations"],
     "every moment of opening and updating relative to the writes of the search, every search method and scoring",
     "tests parse two recorded log directories from older versions, once",
     [REP, LOG, GA],
     [("parser", REP + ":GamaReport.__init__, update"), ("writer", LOG)],
     observe_at="report contents against evaluation events", hook_needed=None)

NA = [
    ("C90", "Exported code rebuilds the same pipeline",
     "The script exported after fit defines a pipeline or ensemble with the same steps, hyperparameters and weights as the model that fit selected.",
     ["inputs"], "every selected pipeline", "tests export a few pipelines",
     ["gama/utilities/export.py"], [("export", GA + ":export_script")]),
    ("C91", "Data input is read and formatted without changing its meaning",
     "Loading a table from file and formatting features and target keeps every value, column type and row order, and train and prediction data are encoded consistently.",
     ["inputs"], "every table", "tests load sample files",
     ["gama/data_loading.py", "gama/data_formatting.py", "gama/utilities/preprocessing.py"], [("format", "gama/data_formatting.py:format_x_y")]),
    ("C92", "Selection operators compute Pareto fronts and NSGA-II ranks correctly",
     "The Pareto front of a list contains exactly its non-dominated items and NSGA-II selection ranks candidates by front and crowding distance.",
     ["inputs"], "every list of fitness values", "tests use small fixed lists",
     ["gama/genetic_programming/nsga2.py", "gama/utilities/generic/paretofront.py"], [("nsga2", "gama/genetic_programming/nsga2.py:nsga2")]),
    ("C93", "Search space configurations are parsed into exactly the stated components",
     "A search space configuration is translated into the listed components with the listed hyperparameter values, shared hyperparameters included, and a pipeline string parses back to the pipeline it was written from.",
     ["inputs"], "every configuration", "tests parse fixed configurations",
     ["gama/configuration/parser.py", "gama/genetic_programming/components/primitive_node.py"], [("parse", "gama/configuration/parser.py:pset_from_config")]),
]
for n in NA:
    prop(*n)

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
