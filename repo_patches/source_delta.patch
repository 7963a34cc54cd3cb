From ad714fed252bdcde42a8a86d749af83df139f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:11 +0000
Subject: [PATCH 01/39] fix: keep the worker alive when a submitted call
 returns an object without an error attribute

---
 gama/utilities/generic/async_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 5470f0d..13e7a3f 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -359,7 +359,7 @@ def evaluator_daemon(
                         result = future.result[0]
                     else:
                         result = future.result
-                    if isinstance(result.error, MemoryError):
+                    if isinstance(getattr(result, "error", None), MemoryError):
                         # Can't pickle MemoryErrors. Should work around this later.
                         result.error = "MemoryError"
                         gc.collect()
-- 
2.43.0


From 766d00cc056a276d2325de110a88e54d9bf0e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:28 +0000
Subject: [PATCH 02/39] fix: report an evaluation that starts past the deadline
 as timed out instead of raising

---
 gama/genetic_programming/compilers/scikitlearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 312ee2e..f5ebb00 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -197,7 +197,8 @@ def evaluate_individual(
 
     if deadline is not None:
         time_to_deadline = deadline - time.time()
-        timeout = min(timeout, time_to_deadline)
+        # Past the deadline, the evaluation has to be reported as timed out too.
+        timeout = max(min(timeout, time_to_deadline), 1e-3)
 
     with Stopwatch() as wall_time, Stopwatch(time.process_time) as process_time:
         evaluation = evaluate_pipeline(individual.pipeline, timeout=timeout, **kwargs)
-- 
2.43.0


From a38d97ad5f6030529ba3215c05c0bb60c1b82292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 03/39] fix: search from a copy of the start candidates

The evolutionary search clears its output list, and ASHA pops candidates from the
list it is given. A second fit handed the search its own (then emptied) output
list as start candidates, and a caller's warm_start list was consumed.
---
 gama/gama.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index c06cbcb..19f7353 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -626,9 +626,9 @@ class Gama(ABC):
         if warm_start:
             if not all(isinstance(i, Individual) for i in warm_start):
                 raise TypeError("`warm_start` must be a list of Individual.")
-            pop = warm_start
+            pop = list(warm_start)
         elif warm_start is None and len(self._final_pop) > 0:
-            pop = self._final_pop
+            pop = list(self._final_pop)
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
-- 
2.43.0


From 80fc55973f567fbbb260250afd971b1d0d148583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 04/39] fix: recreate the output and cache directory when fit
 is called again

With store='nothing' or 'logs', the cleanup of the first fit removes directories
the evaluations of a second fit are written to.
---
 gama/gama.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 19f7353..8556eec 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -531,6 +531,8 @@ class Gama(ABC):
             If None is given, random start candidates are generated.
         """
         self._time_manager = TimeKeeper(self._time_manager.total_time)
+        # The cleanup after a previous `fit` may have removed these:
+        os.makedirs(self._evaluation_library._cache, exist_ok=True)
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
-- 
2.43.0


From 57aeaced15e56ac86ebc8dedd3b11462b394f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 05/39] fix: do not mix evaluations of an earlier fit into the
 next one

The evaluation library kept the evaluations (and, for regression, the sample
indices) of an earlier fit. A second fit built its ensemble from models trained
on other data, or from cache files that had been removed already.
---
 gama/gama.py                         | 5 +++++
 gama/utilities/evaluation_library.py | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 8556eec..2f6b1f8 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -533,6 +533,7 @@ class Gama(ABC):
         self._time_manager = TimeKeeper(self._time_manager.total_time)
         # The cleanup after a previous `fit` may have removed these:
         os.makedirs(self._evaluation_library._cache, exist_ok=True)
+        self._evaluation_library.forget_evaluations()
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
@@ -550,6 +551,10 @@ class Gama(ABC):
                 self._operator_set._compile,
                 preprocessing_steps=self._fixed_pipeline_extension,
             )
+            if not is_classification:
+                self._evaluation_library.determine_sample_indices(
+                    prediction_size=len(self._y)
+                )
             store_pipelines = (
                 self._evaluation_library._m is None or self._evaluation_library._m > 0
             )
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index ad9ce85..e998ec3 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -161,6 +161,14 @@ class EvaluationLibrary:
         else:
             self._sample = "not set"
 
+    def forget_evaluations(self) -> None:
+        """Forget all evaluations, e.g. because new ones are made on different data."""
+        for evaluation in self.top_evaluations:
+            if evaluation._cache_file and os.path.exists(evaluation._cache_file):
+                evaluation.remove_from_disk()
+        self.top_evaluations, self.other_evaluations = [], []
+        self.lookup.clear()
+
     @property
     def evaluations(self) -> List[Evaluation]:
         return self.top_evaluations + self.other_evaluations
-- 
2.43.0


From 0531223d3f0e08128796e9baefa46da65ccc8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 06/39] fix: apply an instance's evaluator settings when it
 searches

n_jobs, max_memory_mb and the memory log were set on the evaluator class by the
constructor, so that fitting an instance used those of the instance created last
(possibly in an output directory that no longer exists).
---
 gama/gama.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 2f6b1f8..98581c4 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -246,15 +246,10 @@ class Gama(ABC):
             self.cleanup("all")
             raise ValueError(err)
 
-        setattr(
-            AsyncEvaluator,
-            "__init__",
-            partialmethod(
-                AsyncEvaluator.__init__,
-                n_workers=n_jobs,
-                memory_limit_mb=max_memory_mb,
-                logfile=os.path.join(self.output_directory, "memory.log"),
-            ),
+        self._evaluator_settings = dict(
+            n_workers=n_jobs,
+            memory_limit_mb=max_memory_mb,
+            logfile=os.path.join(self.output_directory, "memory.log"),
         )
 
         if max_eval_time is None:
@@ -648,6 +643,11 @@ class Gama(ABC):
             metrics=self._metrics,
         )
         AsyncEvaluator.defaults = dict(evaluate_pipeline=evaluate_pipeline)
+        setattr(
+            AsyncEvaluator,
+            "__init__",
+            partialmethod(AsyncEvaluator.__init__, **self._evaluator_settings),
+        )
 
         self._operator_set.evaluate = partial(
             gama.genetic_programming.compilers.scikitlearn.evaluate_individual,
-- 
2.43.0


From 2f932294acf6b027d8208e54b3e43985758c2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 07/39] fix: create new individuals while the population is too
 small to select parents

Parent selection requires three individuals. The evolutionary search asks for
offspring before that if there are few start candidates or most of them fail, and
fit then ended with a ValueError.
---
 gama/genetic_programming/selection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index dd403de..62e3c7a 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -17,6 +17,9 @@ def create_from_population(
     mutpb: float,
 ) -> List[Individual]:
     """Creates n new individuals based on the population."""
+    if len(pop) < 3:
+        # There are not enough individuals to select parents from.
+        return [operator_shell.individual() for _ in range(n)]
     offspring = []
     metrics = [lambda ind: ind.fitness.values[0], lambda ind: ind.fitness.values[1]]
     parent_pairs = nsga2_select(pop, n, metrics)
-- 
2.43.0


From 0f6a986c6ad838e834e0a6d823bb0a089d2b96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 08/39] fix: select parents also when there is a single
 objective

With regularize_length=False and one metric, individuals have a single fitness
value and creating offspring raised an IndexError that ended fit.
---
 gama/genetic_programming/selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index 62e3c7a..f9f7f1e 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -21,7 +21,9 @@ def create_from_population(
         # There are not enough individuals to select parents from.
         return [operator_shell.individual() for _ in range(n)]
     offspring = []
-    metrics = [lambda ind: ind.fitness.values[0], lambda ind: ind.fitness.values[1]]
+    metrics = [lambda ind: ind.fitness.values[0]]
+    if all(len(ind.fitness.values) > 1 for ind in pop):
+        metrics.append(lambda ind: ind.fitness.values[1])
     parent_pairs = nsga2_select(pop, n, metrics)
     for ind1, ind2 in parent_pairs:
         if random.random() < cxpb and len(_valid_crossover_functions(ind1, ind2)) > 0:
-- 
2.43.0


From 5133c9c4b7fa567fb22c5c6e657dcc83c311e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 09/39] fix: allow mutations that replace the only replaceable
 primitive or terminal

As documented, having at least one is sufficient. With a maximum length of one
there was often no mutation available at all and random.choice raised IndexError,
which ended the search.
---
 gama/genetic_programming/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index ad0457c..0c6bcea 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -153,7 +153,7 @@ def random_valid_mutation_in_place(
         replaceable_primitives = filter(
             lambda p: len(primitive_set[p._primitive.output]) > 1, individual.primitives
         )
-        if len(list(replaceable_primitives)) > 1:
+        if len(list(replaceable_primitives)) > 0:
             available_mutations.append(mut_replace_primitive)
 
         if max_length is None or n_primitives < max_length:
@@ -164,7 +164,7 @@ def random_valid_mutation_in_place(
         replaceable_terminals = filter(
             lambda t: len(primitive_set[t.identifier]) > 1, individual.terminals
         )
-        if len(list(replaceable_terminals)) > 1:
+        if len(list(replaceable_terminals)) > 0:
             available_mutations.append(mut_replace_terminal)
 
     mut_fn = random.choice(available_mutations)
-- 
2.43.0


From 9789a3ce0a531d20654643167f74f2e4a116971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 10/39] fix: use the crossover result that respects the maximum
 length

random_crossover guarantees max_pipeline_length only for the first individual it
returns, but its return value was ignored.
---
 gama/genetic_programming/operator_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 995f7c1..bfe5875 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -62,9 +62,9 @@ class OperatorSet:
     def mate(self, ind1: Individual, ind2: Individual, *args, **kwargs) -> Individual:
         def mate_with_log():
             new_individual1, new_individual2 = ind1.copy_as_new(), ind2.copy_as_new()
-            self._mate(new_individual1, new_individual2, *args, **kwargs)
-            new_individual1.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
-            return new_individual1
+            child, _ = self._mate(new_individual1, new_individual2, *args, **kwargs)
+            child.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
+            return child
 
         return self.try_until_new(mate_with_log)
 
-- 
2.43.0


From b3e65b41c43cb4fab749e8a401c834afff8d7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 11/39] fix: return what ASHA found when it is interrupted or
 rungs hold only failures

An interrupt left `highest_rung_reached` unset and a timeout before the first
result took the maximum of nothing, so that the search raised. If the highest rung
reached held only failed evaluations, those were returned and used for the model.
---
 gama/search_methods/asha.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 66ceb83..ec978d3 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -193,18 +193,17 @@ def asha(
                     individual = future.result.individual
                     rung_individuals[rung].append((loss, individual))
                 start_new_job()
-
-            highest_rung_reached = max(rungs)
     except stopit.TimeoutException:
         log.info("ASHA ended due to timeout.")
-        reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
-        highest_rung_reached = max(reached_rungs)
-        if highest_rung_reached != max(rungs):
-            raise RuntimeWarning("Highest rung not reached.")
     finally:
         for rung, individuals in rung_individuals.items():
             log.info(f"[{len(individuals)}] {rung}")
-        return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
+        for individuals in rung_individuals.values():
+            # Failed evaluations have a score of -inf.
+            evaluated = [ind for score, ind in individuals if score > float("-inf")]
+            if evaluated:
+                return evaluated
+        return []
 
 
 def evaluate_on_rung(individual, rung, max_rung, evaluate_individual, *args, **kwargs):
-- 
2.43.0


From 0cbf6b92e0509a29f638738a96b3f7bfa8ac1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 12/39] fix: break ties between ASHA candidates in order of
 completion

Ties were broken by the iteration order of a set of individuals, which hash by
their random id, so that seeded runs were not reproducible.
---
 gama/search_methods/asha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index ec978d3..98e0c08 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -155,7 +155,8 @@ def asha(
             n_to_promote = math.floor(len(individuals) / reduction_factor)
             if n_to_promote - len(promoted_individuals[rung]) > 0:
                 # Problem: equal loss falls back on comparison of individual
-                not_promoted = set(individuals) - set(promoted_individuals[rung])
+                promoted = set(promoted_individuals[rung])
+                not_promoted = [i for i in individuals if i not in promoted]
                 if len(not_promoted) > 0:
                     to_promote = max(not_promoted, key=lambda i: i[0])
                     promoted_individuals[rung].append(to_promote)
-- 
2.43.0


From b0396c189f2bfec68337e7666ffcab38331624a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 13/39] fix: report an evaluation that fails after scoring with
 a failing score

If collecting the predictions raised or timed out, the evaluation was reported with
an error but also with its scores, models and incomplete predictions.
---
 gama/genetic_programming/compilers/scikitlearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index f5ebb00..779f016 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -80,7 +80,7 @@ def evaluate_pipeline(
 
     prediction, estimators = None, None
     # default score for e.g. timeout or failure
-    scores = tuple([float("-inf")] * len(metrics))
+    failed_scores = tuple([float("-inf")] * len(metrics))
     is_classification = is_classifier(pipeline)
 
     with stopit.ThreadingTimeout(timeout) as c_mgr:
@@ -144,7 +144,7 @@ def evaluate_pipeline(
         except KeyboardInterrupt:
             raise
         except Exception as e:
-            return prediction, scores, estimators, e
+            return None, failed_scores, None, e
 
     if c_mgr.state == c_mgr.INTERRUPTED:
         # A TimeoutException was raised, but not by the context manager.
@@ -154,7 +154,7 @@ def evaluate_pipeline(
     return (
         (prediction, tuple(scores), estimators, None)
         if c_mgr
-        else (prediction, scores, estimators, stopit.TimeoutException())
+        else (None, failed_scores, None, stopit.TimeoutException())
     )
 
 
-- 
2.43.0


From 14ef8761ad6ebdeb0affb7b042923245b8fd8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 14/39] fix: take the subsample from the training rows of the
 fold

The indices of the sampler are relative to the training rows, but were used as row
numbers of the data, so that models were trained on rows they are scored on.
---
 gama/genetic_programming/compilers/scikitlearn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 779f016..bb5f5f0 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -107,7 +107,7 @@ def evaluate_pipeline(
                         )
                     full_train_x, full_train_y = x.iloc[train, :], y_train[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((subsample_idx, test))
+                    new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From b17cdb8d5658e5f4723cd13edc1ac722c7216da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 15/39] fix: stop the workers also if starting or stopping the
 pool is interrupted

An interrupt during the shutdown (which can take more than ten seconds) or a
failure to start a worker left the other workers running.
---
 gama/utilities/generic/async_evaluator.py | 47 ++++++++++++++---------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 13e7a3f..3d667fa 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -132,27 +132,39 @@ class AsyncEvaluator:
         log.debug(
             f"Process {self._main_process.pid} starting {self._n_jobs} subprocesses."
         )
-        for _ in range(self._n_jobs):
-            self._start_worker_process()
-        self._log_memory_usage()
+        try:
+            for _ in range(self._n_jobs):
+                self._start_worker_process()
+            self._log_memory_usage()
+        except BaseException:
+            # The context is not entered, so `__exit__` will not be called for us.
+            self.__exit__(None, None, None)
+            raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        log.debug(f"Signaling {len(self._processes)} subprocesses to stop.")
-
-        for _ in self._processes:
-            self._command.put("stop")
-
-        for _ in range(self._wait_time_before_forced_shutdown + 1):
-            if self._command.empty():
-                break
-            time.sleep(1)
-
-        self.clear_queue(self._input)
-        self.clear_queue(self._output)
-        self.clear_queue(self._command)
-        self.job_queue_size = -self._n_jobs
+        # An interrupt or timeout may arrive at any time, also during the shutdown.
+        try:
+            log.debug(f"Signaling {len(self._processes)} subprocesses to stop.")
+
+            for _ in self._processes:
+                self._command.put("stop")
+
+            for _ in range(self._wait_time_before_forced_shutdown + 1):
+                if self._command.empty():
+                    break
+                time.sleep(1)
+
+            self.clear_queue(self._input)
+            self.clear_queue(self._output)
+            self.clear_queue(self._command)
+            self.job_queue_size = -self._n_jobs
+            self._stop_all_worker_processes()
+        finally:
+            self._stop_all_worker_processes()
+        return False
 
+    def _stop_all_worker_processes(self):
         # Even processes which 'stop' need to be 'waited',
         # otherwise they become zombie processes.
         while len(self._processes) > 0:
@@ -161,7 +173,6 @@ class AsyncEvaluator:
             except psutil.NoSuchProcess:
                 self.job_queue_size -= 1
                 self._processes.remove(self._processes[0])
-        return False
 
     def clear_queue(self, q: multiprocessing.Queue):
         while not q.empty():
-- 
2.43.0


From ddae0022fc5872ea77d4f8eab09fb5761de903a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 16/39] fix: notice that a worker died and replace it

A dead child process is a zombie until it is waited for, and psutil does not raise
NoSuchProcess for those. Dead workers were not replaced; with a single job the
search idled until its timeout.
---
 gama/utilities/generic/async_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 3d667fa..a092988 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -327,10 +327,16 @@ class AsyncEvaluator:
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
+                if process.status() == psutil.STATUS_ZOMBIE:
+                    # It died, but memory usage of zombie processes is still reported.
+                    process.wait()
+                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
                 self._processes = [p for p in self._processes if p.pid != process.pid]
+                # The job it was working on will not be completed
+                self.job_queue_size -= 1
                 self._start_worker_process()
 
 
-- 
2.43.0


From 55afb92a5b83a827a409a07331161ca95efeac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 17/39] fix: control memory usage also while workers die

If the workers ended during the measurement there was nothing to take the maximum
of, or a process that no longer exists was to be terminated; both ended the search.
---
 gama/utilities/generic/async_evaluator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index a092988..d30b2cb 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -259,8 +259,9 @@ class AsyncEvaluator:
 
     def _stop_worker_process(self, process: psutil.Process):
         """Terminate a new worker node and remove it from the process pool."""
-        process.terminate()
-        process.wait(timeout=60)
+        with contextlib.suppress(NoSuchProcess):
+            process.terminate()
+            process.wait(timeout=60)
         self.job_queue_size -= 1
         self._processes.remove(process)
 
@@ -295,7 +296,10 @@ class AsyncEvaluator:
             self._log_memory_usage()
             self._mem_violations += 1
             # Find the process with the most memory usage, that is not the main process
-            proc, _ = max(mem_proc[1:], key=lambda t: t[1])
+            workers = [(p, mem) for p, mem in mem_proc if p in self._processes]
+            if not workers:
+                return  # They all ended (and were replaced) during the measurement.
+            proc, _ = max(workers, key=lambda t: t[1])
             n_evaluations = self._mem_violations + self._mem_behaved
             fail_ratio = self._mem_violations / n_evaluations
             if fail_ratio < threshold or len(self._processes) == 1:
-- 
2.43.0


From 3be38e0f9b9b037fa4162d74a9e7f94f39415815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 18/39] fix: keep the evaluation library intact if writing to
 the cache fails

When the disk was full, the new evaluation had already replaced another one in the
top list although its models were not on disk, the replaced evaluation was lost
while its file remained, and a truncated file was left behind.
---
 gama/utilities/evaluation_library.py | 32 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index e998ec3..72ee249 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -44,9 +44,16 @@ class Evaluation:
 
     def to_disk(self, directory: str) -> None:
         """Save Evaluation in the provided directory."""
-        self._cache_file = os.path.join(directory, f"{str(self.individual._id)}.pkl")
-        with open(self._cache_file, "wb") as fh:
-            pickle.dump((self._estimators, self._predictions), fh)
+        cache_file = os.path.join(directory, f"{str(self.individual._id)}.pkl")
+        try:
+            with open(cache_file, "wb") as fh:
+                pickle.dump((self._estimators, self._predictions), fh)
+        except BaseException:
+            # Don't leave an incomplete file behind.
+            if os.path.exists(cache_file):
+                os.remove(cache_file)
+            raise
+        self._cache_file = cache_file
         self._estimators, self._predictions = [], None
 
     def remove_from_disk(self) -> None:
@@ -242,17 +249,16 @@ class EvaluationLibrary:
         elif self._m is None or self._m > len(self.top_evaluations):
             evaluation.to_disk(self._cache)
             heapq.heappush(self.top_evaluations, evaluation)
-        else:
-            removed = heapq.heappushpop(self.top_evaluations, evaluation)
-            if removed == evaluation:
-                # new evaluation is not in heap, big memory items may be discarded
-                removed._estimators, removed._predictions = [], None
-            else:
-                # new evaluation is now on the heap, remove old from disk
-                evaluation.to_disk(self._cache)
-                removed.remove_from_disk()
-
+        elif self._m > 0 and self.top_evaluations[0] < evaluation:
+            # Write to disk first, if that fails the top evaluations are not affected.
+            evaluation.to_disk(self._cache)
+            removed = heapq.heapreplace(self.top_evaluations, evaluation)
             self.other_evaluations.append(removed)
+            removed.remove_from_disk()
+        else:
+            # new evaluation is not in heap, big memory items may be discarded
+            evaluation._estimators, evaluation._predictions = [], None
+            self.other_evaluations.append(evaluation)
 
         self.lookup[self._lookup_key(evaluation)] = evaluation
 
-- 
2.43.0


From b87e8302b3978bd3a966258d28b42d53b5a7c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 19/39] fix: leave a usable ensemble if there is no time left
 after building it

The error about the non-positive timeout was only logged, and the ensemble that
was returned had no models to predict with.
---
 gama/postprocessing/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index ef18e58..72e08bb 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -519,7 +519,8 @@ def build_fit_ensemble(
             ensemble.expand_ensemble(remainder)
 
         build_time = time.time() - start_build
-        timeout -= build_time
+        # Selecting the models may take all time, but they are already trained.
+        timeout = max(timeout - build_time, 1e-3)
         log.info(f"Ensemble build took {build_time}s. Fit with timeout {timeout}s.")
         ensemble.fit(x, y, timeout)
     except Exception as e:
-- 
2.43.0


From 7621ee75e1aea304ceba9836042cc71adf84371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 20/39] fix: quote values of the evaluation log that contain
 separators or newlines

Error messages often do, which made the log (and a GamaReport of it) unreadable.
---
 gama/logging/evaluation_logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 19df488..3577063 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -1,3 +1,4 @@
+import csv
 from datetime import datetime
 from functools import partial
 import operator
@@ -67,8 +68,9 @@ class EvaluationLogger:
 
     def log_line(self, values: Iterable[str]) -> None:
         """Appends `values` as a row of separated values to the file."""
-        with open(self._file_path, "a") as evaluations:
-            evaluations.write(self._sep.join(values) + "\n")
+        with open(self._file_path, "a", newline="") as evaluations:
+            writer = csv.writer(evaluations, delimiter=self._sep, lineterminator="\n")
+            writer.writerow(values)
 
     def log_evaluation(self, evaluation) -> None:
         values = [getter(evaluation) for getter in self.fields.values()]
-- 
2.43.0


From c0a7807747060e9fcd9861c10f4b573f80d26a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 21/39] fix: start random search with an empty output

A second fit kept the individuals of the first one, with scores on other data.
---
 gama/search_methods/random_search.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/search_methods/random_search.py b/gama/search_methods/random_search.py
index ddf5ff6..0cd1915 100644
--- a/gama/search_methods/random_search.py
+++ b/gama/search_methods/random_search.py
@@ -25,6 +25,7 @@ class RandomSearch(BaseSearch):
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
     ) -> None:
+        self.output = []
         random_search(operations, self.output, start_candidates)
 
 
-- 
2.43.0


From 4445e3f8a707e66007c3aa5a575493d9f7b13ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 22/39] fix: make reports of new logs readable again

Since `config` was renamed, the log contained the whole search space, which
GamaReport can not parse. It also always expected the length as a second metric.
---
 gama/gama.py               | 10 +++++++++-
 gama/logging/GamaReport.py |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 98581c4..28151be 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -222,7 +222,15 @@ class Gama(ABC):
             [
                 f"{k}={v}"
                 for (k, v) in locals().items()
-                if k not in ["self", "config", "log_file", "log_handler", "log_format"]
+                if k
+                not in [
+                    "self",
+                    "search_space",
+                    "config",
+                    "log_file",
+                    "log_handler",
+                    "log_format",
+                ]
             ]
         )
         log.info(f"Using GAMA version {__version__}.")
diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 56e6af4..d34a93c 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -58,7 +58,7 @@ class GamaReport:
                 self.phases.append((phase, algorithm, start_time, d))
 
         self.metrics = self.hyperparameters["scoring"].split(",")
-        if self.hyperparameters["regularize_length"]:
+        if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
         self.incomplete = len(self.phases) < 3
-- 
2.43.0


From 3bf5aa3227c4aa2eec6575655b65523d2a981b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:56 +0000
Subject: [PATCH 23/39] fix: leave no output directory behind if the settings
 are refused

This was done for invalid times and number of jobs, but an unknown metric or an
impossible pipeline length left the new directory and its logs.
---
 gama/gama.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 28151be..824e57f 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -197,6 +197,7 @@ class Gama(ABC):
             else:
                 raise ValueError(f"Unknown value for {preset=}'")
 
+        self._metrics: Tuple[Metric, ...] = scoring_to_metric(scoring)
         if not output_directory:
             output_directory = f"gama_{str(uuid.uuid4())}"
         self.output_directory = os.path.abspath(os.path.expanduser(output_directory))
@@ -271,7 +272,6 @@ class Gama(ABC):
 
         self._max_eval_time = max_eval_time
         self._time_manager = TimeKeeper(max_total_time)
-        self._metrics: Tuple[Metric, ...] = scoring_to_metric(scoring)
         self._regularize_length = regularize_length
         self._search_method: BaseSearch = search
         self._post_processing = post_processing
@@ -314,6 +314,7 @@ class Gama(ABC):
                 )
                 max_pipeline_length = 1
             elif max_pipeline_length > 1:
+                self.cleanup("all")
                 raise ValueError(
                     f"`max_pipeline_length` can't be {max_pipeline_length} "
                     "because there are no preprocessing steps in the search space."
-- 
2.43.0


From 2d8aaf59a74262b9c9372828f54088c596183548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:36 +0000
Subject: [PATCH 24/39] fix: build ensembles also if only a secondary metric
 requires probabilities

---
 gama/postprocessing/ensemble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 72e08bb..e647ce8 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -428,6 +428,10 @@ class EnsembleClassifier(Ensemble):
         else:
 
             def one_hot_encode_predictions(predictions):
+                if predictions.ndim == 2 and predictions.shape[1] > 1:
+                    # Class probabilities, stored because another metric requires them.
+                    classes = self._one_hot_encoder.categories_[0]
+                    predictions = classes[predictions.argmax(axis=1)]
                 return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
 
             self._prediction_transformation = one_hot_encode_predictions
-- 
2.43.0


From f390a8c476ac06f6072153d1c93eaa56a830e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:34 +0000
Subject: [PATCH 25/39] fix: notice dead workers also if memory usage is not
 logged

---
 gama/utilities/generic/async_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index d30b2cb..4389229 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -318,9 +318,10 @@ class AsyncEvaluator:
             # todo: update the Future of the evaluation that was terminated.
 
     def _log_memory_usage(self):
+        # Measuring also notices (and replaces) workers which died, do so regardless.
+        mem_by_pid = list(self._get_memory_usage())
         if not self._logfile:
             return
-        mem_by_pid = self._get_memory_usage()
         mem_str = ",".join([f"{proc.pid},{mem_mb}" for (proc, mem_mb) in mem_by_pid])
         timestamp = datetime.datetime.now().isoformat()
 
-- 
2.43.0


From 51c9fcdf1fff5dd91fef10e95b03178c9b77e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:16 +0000
Subject: [PATCH 26/39] fix: give each worker a job at the start of successive
 halving

---
 gama/search_methods/asha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 98e0c08..86e3198 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -181,7 +181,8 @@ def asha(
                     timeout=(10 + (time_penalty * 600)),
                 )
 
-            for _ in range(8):
+            # At least one job for each worker (job_queue_size starts at -n_workers).
+            for _ in range(max(8, -async_.job_queue_size)):
                 start_new_job()
 
             while (max_full_evaluations is None) or (
-- 
2.43.0


From e4c49651a5ede295a2f323b0fc13c58b0c65184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:41 +0000
Subject: [PATCH 27/39] fix: subsample by position whatever the index of the
 target

---
 gama/genetic_programming/compilers/scikitlearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index bb5f5f0..575d09d 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -105,7 +105,9 @@ def evaluate_pipeline(
                         sampler = ShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
                         )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train[train]
+                    # `train` has positions, `y_train` may have any index.
+                    full_train_x = x.iloc[train, :]
+                    full_train_y = np.asarray(y_train)[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
                     new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
-- 
2.43.0


From 312da3186f0c3b7942eb8ce273ab05d94956d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:39 +0000
Subject: [PATCH 28/39] fix: ignore unlabeled rows also when the labels are
 encoded

---
 gama/GamaClassifier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 5ae2749..8f0fc24 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -7,6 +7,7 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
+from gama.data_formatting import format_x_y
 from gama.data_loading import X_y_from_file
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
@@ -125,11 +126,12 @@ class GamaClassifier(Gama):
 
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
-        y_ = y.squeeze() if isinstance(y, pd.DataFrame) else y
-        self._label_encoder = LabelEncoder().fit(y_)
-        if any(isinstance(yi, str) for yi in y_):
+        # Rows without label are ignored, they must not become a class of their own.
+        x, y = format_x_y(x, y)
+        self._label_encoder = LabelEncoder().fit(y)
+        if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-            y = self._label_encoder.transform(y_)
+            y = self._label_encoder.transform(y)
         self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
-- 
2.43.0


From 8f36002c4bb27855899eb8d4af2d8e15e8c15eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:23 +0000
Subject: [PATCH 29/39] fix: read reports of searches with several metrics

---
 gama/logging/GamaReport.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index d34a93c..7c6be82 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -57,7 +57,8 @@ class GamaReport:
                 start_time = end_time - timedelta(seconds=d)
                 self.phases.append((phase, algorithm, start_time, d))
 
-        self.metrics = self.hyperparameters["scoring"].split(",")
+        scoring = self.hyperparameters["scoring"].split(",")
+        self.metrics = [metric.strip(" '") for metric in scoring]
         if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
@@ -133,4 +134,13 @@ def init_to_hps(init_line: str) -> Dict[str, str]:
     # only supports one nested level - will do proper parsing later
     for token in ["()", "(", ")", ",,"]:
         all_arguments = all_arguments.replace(token, ",")
-    return dict(hp.split("=") for hp in all_arguments.split(","))
+    hyperparameters: Dict[str, str] = {}
+    for token in all_arguments.split(","):
+        if "=" in token:
+            name, value = token.split("=")
+            hyperparameters[name] = value
+        elif token.strip():
+            # One of several values, e.g. of `scoring`.
+            values = [hyperparameters[name], token.strip()]
+            hyperparameters[name] = ",".join(filter(None, values))
+    return hyperparameters
-- 
2.43.0


From a928ba2e3229020bb9d21141b15d511e89b8a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:37 +0000
Subject: [PATCH 30/39] fix: read reports of searches with a single objective

---
 gama/logging/GamaReport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 7c6be82..fc6e188 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -87,7 +87,9 @@ class GamaReport:
             df = df.rename(columns=dict(t_start="start", t_wallclock="duration"))
 
             def tuple_to_metrics(tuple_str):
-                return pd.Series([float(value) for value in tuple_str[1:-1].split(",")])
+                # A tuple with a single value ends in a comma.
+                values = tuple_str[1:-1].rstrip(",").split(",")
+                return pd.Series([float(value) for value in values])
 
             df[self.metrics] = df.score.apply(tuple_to_metrics)
             df.start = pd.to_datetime(
-- 
2.43.0


From a2aa69389e45ee83a5d9075053c21b550bf646a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 31/39] fix: join dead workers with multiprocessing, as cheap
 as before

---
 gama/utilities/generic/async_evaluator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 4389229..230f099 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -329,13 +329,11 @@ class AsyncEvaluator:
             memory_log.write(f"{timestamp},{mem_str}\n")
 
     def _get_memory_usage(self):
+        # Joins the workers which died, zombie processes still report memory usage.
+        multiprocessing.active_children()
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
-                if process.status() == psutil.STATUS_ZOMBIE:
-                    # It died, but memory usage of zombie processes is still reported.
-                    process.wait()
-                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
-- 
2.43.0


From 45afee4bc0221df9c7ce618a54880db053cd59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:03 +0000
Subject: [PATCH 32/39] fix: do not read results when the pool is left, the
 last one may be incomplete

---
 gama/utilities/generic/async_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 230f099..e39c15c 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -156,7 +156,9 @@ class AsyncEvaluator:
                 time.sleep(1)
 
             self.clear_queue(self._input)
-            self.clear_queue(self._output)
+            # The interrupt may have cut off receiving a result,
+            # what is left of it in this queue can not be read.
+            self._output.close()
             self.clear_queue(self._command)
             self.job_queue_size = -self._n_jobs
             self._stop_all_worker_processes()
-- 
2.43.0


From 08f5b8b025f7fc66d26b11c13af346892a9ef2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:53 +0000
Subject: [PATCH 33/39] fix: compile start candidates with the preprocessing of
 the current fit

Start candidates taken from a previous fit (or given as warm start) kept the
preprocessing steps that were set up for the data they were created with. With
data that has other columns to encode, they and all their offspring failed.
---
 gama/gama.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 824e57f..6075ef4 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -643,6 +643,10 @@ class Gama(ABC):
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
+        for individual in pop:
+            # Preprocessing depends on the data, which it may not have been created for.
+            individual._to_pipeline = self._operator_set._safe_compile
+
         deadline = time.time() + timeout
 
         evaluate_pipeline = partial(
-- 
2.43.0


From eb4979c501d2ab331ccc3d103c364624ab8c95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:58 +0000
Subject: [PATCH 34/39] fix: let the program end when calls were not sent to
 the workers

Calls submitted to the pool that did not fit into the pipe to the workers when
the search ended kept the feeder thread of the queue waiting. Python joins that
thread on exit, so a program that had called fit never ended.
---
 gama/utilities/generic/async_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index e39c15c..bfa2d81 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -127,6 +127,8 @@ class AsyncEvaluator:
         self._has_entered = True
 
         self._input = multiprocessing.Queue()
+        # Don't wait on exit for calls to be sent to processes which have ended.
+        self._input.cancel_join_thread()
         self._output = multiprocessing.Queue()
 
         log.debug(
-- 
2.43.0


From 20df74c01e3a8c8d7ff01f5157558cac3a7bdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:58 +0000
Subject: [PATCH 35/39] fix: hand back results that have no truth value

---
 gama/utilities/generic/async_evaluator.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index bfa2d81..566275e 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -378,15 +378,13 @@ def evaluator_daemon(
             try:
                 future = input_queue.get(block=False)
                 future.execute(default_parameters)
-                if future.result:
-                    if isinstance(future.result, tuple):
-                        result = future.result[0]
-                    else:
-                        result = future.result
-                    if isinstance(getattr(result, "error", None), MemoryError):
-                        # Can't pickle MemoryErrors. Should work around this later.
-                        result.error = "MemoryError"
-                        gc.collect()
+                result = future.result
+                if isinstance(result, tuple) and len(result) > 0:
+                    result = result[0]
+                if isinstance(getattr(result, "error", None), MemoryError):
+                    # Can't pickle MemoryErrors. Should work around this later.
+                    result.error = "MemoryError"
+                    gc.collect()
                 output_queue.put(future)
             except (MemoryError, struct.error) as e:
                 future.result = None
-- 
2.43.0


From d37e514513e5998cf71072eafd96c5b40979c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:58 +0000
Subject: [PATCH 36/39] fix: use one job by default on a machine with one CPU

---
 gama/gama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index 6075ef4..744f89c 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -238,7 +238,7 @@ class Gama(ABC):
         log.info(f"INIT:{self.__class__.__name__}({arguments})")
 
         if n_jobs is None:
-            n_jobs = multiprocessing.cpu_count() // 2
+            n_jobs = max(1, multiprocessing.cpu_count() // 2)
             log.debug("n_jobs defaulted to %d.", n_jobs)
         elif n_jobs == -1:
             n_jobs = multiprocessing.cpu_count()
-- 
2.43.0


From 71d2f230e1f0b68e77a3146e05c1d7c59ee5e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:13 +0000
Subject: [PATCH 37/39] fix: keep the timeout of the search when it is raised
 while a log message is handled

---
 gama/gama.py                      |  4 ++--
 gama/logging/utility_functions.py | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 744f89c..16ca65c 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -40,7 +40,7 @@ from gama.data_loading import X_y_from_file
 from gama.data_formatting import format_x_y
 from gama.search_methods.async_ea import AsyncEA
 from gama.utilities.generic.timekeeper import TimeKeeper
-from gama.logging.utility_functions import register_stream_log
+from gama.logging.utility_functions import FileHandler, register_stream_log
 from gama.utilities.preprocessing import (
     basic_encoding,
     basic_pipeline_extension,
@@ -213,7 +213,7 @@ class Gama(ABC):
         register_stream_log(verbosity)
         if store in {"logs", "all"}:
             log_file = os.path.join(self.output_directory, "gama.log")
-            log_handler = logging.FileHandler(log_file)
+            log_handler = FileHandler(log_file)
             log_handler.setLevel(logging.DEBUG)
             log_format = logging.Formatter("[%(asctime)s - %(name)s] %(message)s")
             log_handler.setFormatter(log_format)
diff --git a/gama/logging/utility_functions.py b/gama/logging/utility_functions.py
index d99c498..2421dc2 100644
--- a/gama/logging/utility_functions.py
+++ b/gama/logging/utility_functions.py
@@ -1,9 +1,31 @@
 import logging
 import sys
 
+import stopit
+
 gama_log = logging.getLogger("gama")
 
 
+class _KeepTimeout:
+    """Handlers discard exceptions raised while they handle a record.
+
+    The timeout that ends the search may be raised at that time, it must not be lost.
+    """
+
+    def handleError(self, record: logging.LogRecord) -> None:
+        if isinstance(sys.exc_info()[1], stopit.TimeoutException):
+            raise
+        super().handleError(record)  # type: ignore
+
+
+class StreamHandler(_KeepTimeout, logging.StreamHandler):
+    pass
+
+
+class FileHandler(_KeepTimeout, logging.FileHandler):
+    pass
+
+
 def register_stream_log(verbosity: int) -> None:
     previously_registered_handler = [
         handler for handler in gama_log.handlers if hasattr(handler, "tag")
@@ -20,7 +42,7 @@ def register_stream_log(verbosity: int) -> None:
             )
         ]
 
-    stdout_streamhandler = logging.StreamHandler(sys.stdout)
+    stdout_streamhandler = StreamHandler(sys.stdout)
     setattr(stdout_streamhandler, "tag", "machine_set")
     stdout_streamhandler.setLevel(verbosity)
     gama_log.addHandler(stdout_streamhandler)
-- 
2.43.0


From f6a716256eee95853de09b889720323aab783f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 38/39] fix: leave the pool when a worker was killed while it
 held the lock of a queue

---
 gama/utilities/generic/async_evaluator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 566275e..c642dae 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -179,9 +179,9 @@ class AsyncEvaluator:
                 self._processes.remove(self._processes[0])
 
     def clear_queue(self, q: multiprocessing.Queue):
-        while not q.empty():
-            with contextlib.suppress(queue.Empty):
-                q.get(timeout=0.001)
+        # Items left in the queue can't be received if a worker was killed while
+        # it held the lock of the queue, so don't try to.
+        q.cancel_join_thread()
         q.close()
 
     def submit(self, fn: Callable, *args, **kwargs) -> AsyncFuture:
-- 
2.43.0


From 95c8ca6d847a3f6610c760215423b194f266d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:06 +0000
Subject: [PATCH 39/39] fix: write the header of the evaluation log again when
 its file was removed

---
 gama/logging/evaluation_logger.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 3577063..e92180d 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -2,6 +2,7 @@ import csv
 from datetime import datetime
 from functools import partial
 import operator
+import os
 from typing import Any, Optional, Dict, Callable, Iterable
 
 from gama.logging import TIME_FORMAT
@@ -73,6 +74,10 @@ class EvaluationLogger:
             writer.writerow(values)
 
     def log_evaluation(self, evaluation) -> None:
+        if not os.path.exists(self._file_path):
+            # The logs of an earlier `fit` were removed, start a new file.
+            self.log_line(list(self.fields))
+
         values = [getter(evaluation) for getter in self.fields.values()]
 
         def format_value(v):
-- 
2.43.0

