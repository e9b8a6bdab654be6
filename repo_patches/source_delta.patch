From 97f53313bf5413a067c6b6edb083854057b126a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 01/49] fix: resolving stages no longer changes the caller's
 set of initial inputs

_resolve_stages added every stage output to the set it was given, so the
caller's set was polluted, a second build from it accepted unresolvable
pipelines, and the runner's runnability check was made vacuous.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..e1f4951 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -158,7 +158,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From b5f2e60f4d8c41395a869297c8f56dbee6fb5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 02/49] fix: a stage without outputs can be resolved

A stage was only marked as resolved while iterating over its outputs, so a
pipeline with a stage that has none could never be built.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index e1f4951..f8247b9 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -216,9 +216,9 @@ class StageBuilder:
 
             # Add outputs of stages that can run to the list of available inputs
             for stage in stages_can_run_post_mutating_check:
+                resolved_stages.add(stage)
                 for argument in self._stage_outputs[stage]:
                     available_inputs.add(argument)
-                    resolved_stages.add(stage)
 
             stage_order.append(list(stages_can_run_post_mutating_check))
 
-- 
2.43.0


From aba7360a6c1c55475c4b20819d07516991cc3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 03/49] fix: RunBefore and RunAfter markers are recognised

RunBefore[X] is a generic alias, not a type, so the isinstance checks never
matched: the markers were treated as ordinary inputs that nothing provides
and a pipeline using one could not be built.
---
 instancespace/stage_builder.py | 32 ++++++++++++++------------------
 instancespace/stage_runner.py  |  7 ++++++-
 instancespace/stages/stage.py  | 15 ++++++++++++++-
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index f8247b9..9c0b77c 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,12 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import (
+    RunAfter,
+    RunBefore,
+    StageClass,
+    is_run_restriction,
+)
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_restriction(output_type):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -145,7 +148,10 @@ class StageBuilder:
 
         return StageRunner(
             stage_order,
-            self._stage_inputs,
+            {
+                stage: self._strip_run_restriction_arguments(arguments)
+                for stage, arguments in self._stage_inputs.items()
+            },
             self._stage_outputs,
             initial_input_annotations,
         )
@@ -265,11 +271,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_restriction(argument.parameter_type)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +294,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_restriction(argument.parameter_type, RunBefore):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_restriction(argument.parameter_type, RunAfter):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..3f0ad91 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,7 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import OUT, Stage, StageClass, is_run_restriction
 
 StageScheduleElement = list[StageClass]
 
@@ -146,6 +146,11 @@ class StageRunner:
         raw_inputs = {}
 
         for input_name in input_arguments._fields:
+            # RunBefore and RunAfter only restrict the running order, and have no value
+            if is_run_restriction(input_arguments.__annotations__[input_name]):
+                raw_inputs[input_name] = input_arguments._field_defaults.get(input_name)
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..3fe94b8 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,16 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_restriction(
+    parameter_type: Any,  # noqa: ANN401
+    restriction: type | tuple[type, ...] = (RunBefore, RunAfter),
+) -> bool:
+    """Whether the type of a stage argument is a RunBefore or RunAfter marker.
+
+    Parametrised generics such as RunBefore[SomeStage] are not types themselves, so the
+    check is done on their origin.
+    """
+    origin = get_origin(parameter_type) or parameter_type
+    return isinstance(origin, type) and issubclass(origin, restriction)
-- 
2.43.0


From 5bc3a427898702dac8df4c8b3f596fd4a266730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:03 +0000
Subject: [PATCH 04/49] fix: rerunning a stage restores the data its schedule
 started with

Every saved snapshot was the same dictionary, so a rerun stage was given its
own (and later stages') outputs instead of what it was first given, stale
outputs of later stages survived, a stage that raised left the runner rolled
back, and the result of a stage that shares a schedule with one overwriting
its input depended on the arbitrary order within the schedule. Returned
dictionaries were live views of the runner's state.
---
 instancespace/stage_runner.py | 55 ++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 3f0ad91..8c6502a 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -34,7 +34,7 @@ class StageRunner:
     """A runner to run a list of stages."""
 
     # Data output from stages that can be used as input for future stages. Saved
-    # at every stage schedule so you can rerun stages.
+    # at the start of every stage schedule so you can rerun stages.
     _schedule_output_data: list[dict[str, Any]]
 
     _available_arguments: dict[str, Any]
@@ -97,15 +97,13 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 yield AnnotatedStageOutput(stage, self.run_stage(stage))
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
     def run_stage(
         self,
@@ -132,12 +130,9 @@ class StageRunner:
                 + "been ran",
             )
 
-        # If running an earlier stage again, rollback any changes made after that stages
-        # schedule
-        if stage_schedule_index != self._current_schedule_item:
-            self._rollback_to_schedule_index(stage_schedule_index)
-
-        available_arguments = self._available_arguments.copy()
+        # Stages see the data as it was when their schedule started, so rerunning one
+        # doesn't depend on what has been ran since
+        available_arguments = self._schedule_output_data[stage_schedule_index].copy()
         for k, v in additional_arguments.items():
             available_arguments[k] = v
 
@@ -159,13 +154,14 @@ class StageRunner:
 
         outputs = stage._run(deepcopy(inputs))  # noqa: SLF001
 
+        # If running an earlier stage again, rollback any changes made after that stages
+        # schedule
+        if stage_schedule_index != self._current_schedule_item:
+            self._rollback_to_schedule_index(stage_schedule_index)
+
         for output_name, output_value in outputs._asdict().items():
             self._available_arguments[output_name] = output_value
 
-        self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
-        )
-
         self._stages_ran[stage] = True
 
         self._progress_schedule()
@@ -201,15 +197,13 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
     def run_until_stage(
         self,
@@ -222,9 +216,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -233,7 +225,7 @@ class StageRunner:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
 
@@ -258,12 +250,20 @@ class StageRunner:
             for stage in schedule_element:
                 available_arguments |= output_arguments[stage]
 
+    def _restart(self, initial_arguments: NamedTuple) -> None:
+        self._current_schedule_item = 0
+        self._available_arguments = initial_arguments._asdict()
+        self._schedule_output_data = [self._available_arguments.copy()]
+        self._stages_ran.clear()
+
     def _rollback_to_schedule_index(
         self,
         index: int,
     ) -> None:
         self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
+
+        # What was available once every stage in the schedule had ran
+        self._available_arguments = self._schedule_output_data[index + 1]
 
         self._schedule_output_data = self._schedule_output_data[: index + 1]
 
@@ -279,11 +279,6 @@ class StageRunner:
                 break
 
         if current_schedule_finished:
-            self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
-            )
+            self._schedule_output_data.append(self._available_arguments.copy())
 
             self._current_schedule_item += 1
-
-            if len(self._schedule_output_data) <= self._current_schedule_item:
-                self._schedule_output_data.append({})
-- 
2.43.0


From 3bb93e8afa8b407657c2c012b55263cd3ae67ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:03 +0000
Subject: [PATCH 05/49] fix: run_until_stage runs the stage it is told to run
 until

It stopped before the schedule of that stage, although it is documented to
run the specified stage as well.
---
 instancespace/stage_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 8c6502a..74175a1 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -219,12 +219,12 @@ class StageRunner:
         self._restart(additional_arguments)
 
         for schedule in self._stage_order:
-            if stop_at_stage in schedule:
-                break
-
             for stage in schedule:
                 self.run_stage(stage)
 
+            if stop_at_stage in schedule:
+                break
+
         return self._available_arguments.copy()
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
-- 
2.43.0


From 0f82222701af59e61c9b159d7422b4ae08b9bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:03 +0000
Subject: [PATCH 06/49] fix: building an instance space again refreshes its
 model

The model made from the first build was returned for every later one, even
though every stage had been run again.
---
 instancespace/instance_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3828ea5 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
-- 
2.43.0


From 317b8b40ae296b65a7d76a315f5c9e9803a259b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 07/49] fix: metadata matrices hold doubles also when all
 values are integers

Integer columns gave an integer matrix, on which prelim raises an
OverflowError when it marks missing values with infinity, and into which it
cannot write eps in place of zeros.
---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..69510c2 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -64,8 +64,8 @@ class Metadata:
         return Metadata(
             feature_names=feature_names,
             algorithm_names=algorithm_names,
-            features=features_raw.to_numpy(),
-            algorithms=algo_raw.to_numpy(),
+            features=features_raw.to_numpy(dtype=np.double, na_value=np.nan),
+            algorithms=algo_raw.to_numpy(dtype=np.double, na_value=np.nan),
             instance_sources=source_column,
             instance_labels=instance_labels,
         )
-- 
2.43.0


From 143c348a77b047248cc098927e6c8b646a478f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 08/49] fix: metadata of a single instance keeps its label and
 source as a series

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index 69510c2..da1944b 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze(axis="columns")
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze(axis="columns")
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From ccbc28f28715e62ffbc8f4b69a4046ee93f3ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 09/49] fix: InstanceSpaceOptions.default() can be called
 without options

It is documented that way, but every group was a required argument.
---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..c68d3bf 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -535,18 +535,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From 98121331e774f4ae3cb1766b717e7c9f7cb6088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 10/49] fix: turning automatic preprocessing off turns bounding
 and scaling off

auto.preproc is documented to switch the automatic pre-processing, but
nothing read it.
---
 instancespace/data/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index c68d3bf..101aeaa 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -736,8 +736,8 @@ class PrelimOptions:
             abs_perf=options.perf.abs_perf,
             epsilon=options.perf.epsilon,
             beta_threshold=options.perf.beta_threshold,
-            bound=options.bound.flag,
-            norm=options.norm.flag,
+            bound=options.auto.preproc and options.bound.flag,
+            norm=options.auto.preproc and options.norm.flag,
         )
 
 
-- 
2.43.0


From 0035cbeb0aad4b91d8617829a8946e1488db76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 11/49] fix: a metadata file that is not text yields no
 metadata instead of an error

---
 instancespace/data/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index da1944b..cb6ecd4 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,12 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (
+        FileNotFoundError,
+        OSError,
+        UnicodeDecodeError,
+        pd.errors.ParserError,
+    ) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From a71d72a049c61db156714e65816c744b13282976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 12/49] fix: instance labels are restricted together with the
 instances

---
 instancespace/stages/prelim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..5682040 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,8 +118,8 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
-        Labels for each instance in the dataset, if provided.
+    inst_labels : pd.Series
+        Labels for each of the instances that remain.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
           feature representations.
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From fd7d40e9d4a59d6553af5ce4f6c95467d537a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 13/49] fix: the performance rule does not write into the table
 it is given

---
 instancespace/stages/prelim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 5682040..76dd540 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -607,7 +607,8 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         NDArray[np.double],  # PrelimOut.sigma_y
         NDArray[np.double],  # PrelimOut.mu_y
     ]:
-        y_raw = y.copy()
+        y_raw = y
+        y = y.copy()
         nalgos = y.shape[1]
 
         print(
-- 
2.43.0


From 6a996525a1ed2c2dafb528a99172b5282adba0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 14/49] fix: an algorithm that attains a best performance of
 zero is good

---
 instancespace/stages/prelim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 76dd540..1f5245f 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -630,6 +630,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "higher than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
+                y_aux[y_aux == 0] = np.finfo(float).eps
                 y[y == 0] = np.finfo(float).eps
                 y = 1 - y / y_best[:, np.newaxis]
                 y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
-- 
2.43.0


From 89afa83fbb1b952bebac994d6a9d28537ad3f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 15/49] fix: missing values do not spoil the bounds and scaling
 of the others

---
 instancespace/stages/prelim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1f5245f..fb09ce5 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -676,8 +681,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(
+            x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -691,11 +701,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From e5c75b45a51e6cb36c18aab3aeae1b686190f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:40 +0000
Subject: [PATCH 16/49] fix: an index file can select the last instance or a
 single one

---
 instancespace/stages/prelim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index fb09ce5..66d71e3 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -813,13 +813,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         elif fileindexed:
             print("-> Using a subset of instances.")
             subset_index = np.zeros(ninst, dtype=bool)
-            aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
+            # the file holds 1-based indices, as in the MATLAB version
+            aux = np.atleast_1d(
+                np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int),
+            )
             print("aux:", aux)
-            aux = aux[aux < ninst]
-
-            for i in range(len(aux)):
-                aux[i] = aux[i] - 1
-            subset_index[aux] = True
+            aux = aux[(aux >= 1) & (aux <= ninst)]
+            subset_index[aux - 1] = True
 
         elif bydensity:
             print(
-- 
2.43.0


From 69e977d29d646bfeec5d323836ebf5882ae5010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 17/49] fix: scaling does not turn a column into NaN when its
 power transform is flat

---
 instancespace/stages/prelim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 66d71e3..ed9b0ab 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -535,6 +535,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             # Use the optimal lambda to perform the Box-Cox transformation
             transformed_data = stats.boxcox(data, optimal_lambda)
 
+            # An extreme power flattens values that differ into a single one, which
+            # cannot be standardised. Leave such data untransformed.
+            spread = np.ptp(transformed_data)
+            if spread <= 1e-10 * np.max(np.abs(transformed_data)):
+                optimal_lambda = np.ones(1)
+                transformed_data = stats.boxcox(data, optimal_lambda)
+
             return transformed_data, optimal_lambda[0]
 
         nfeats = self.x.shape[1]
-- 
2.43.0


From b193509b5e62435508f1a88260f7b199243c1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 18/49] fix: feature screening compares each feature's own
 absolute correlation

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..cf988fd 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -747,7 +747,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -757,7 +757,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From 1fad5fd837ce27eeefe99fa865fa3ada3b4adfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 19/49] fix: the search for features evaluates the features its
 clusters refer to

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index cf988fd..42b11c7 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -919,12 +919,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = self.feat_labels[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From fa1e703c53804fbe762e4b0c3f02f20455f4a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 20/49] fix: the search for features minimises the prediction
 error

---
 instancespace/stages/sifted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 42b11c7..54edf5c 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -842,7 +842,8 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         z = out.z
 
-        y = -np.inf
+        # The fitness is maximised, so it is the negative of the error to minimise
+        y = np.inf
         for i in range(instance.selfy.shape[1]):
             knn = KNeighborsClassifier(n_neighbors=SiftedStage.K_NEIGHBORS)
             scores: NDArray[np.double] = cross_val_score(
@@ -852,7 +853,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 cv=instance.cv_partition,
                 scoring="neg_mean_squared_error",
             )
-            y = max(y, -scores.mean())
+            y = min(y, scores.mean())
 
         return y
 
-- 
2.43.0


From 152178ad7e08668d3726d2659f693b109cc12a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 21/49] fix: suggesting a number of clusters reads the score it
 belongs to

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 54edf5c..f303ba1 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1001,7 +1001,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From e15dac040a7fec3b3f652fc0284350fa36f64967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 22/49] fix: features are sifted also when the density filter
 is used

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f303ba1..5f331f1 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -670,7 +670,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
+                data_dense.x[subset_index][:, selvars],
                 data_dense.y[subset_index][:],
                 data_dense.y_bin[subset_index][:],
                 data_dense.x_raw[subset_index][:],
-- 
2.43.0


From 09ac469d872b66f4c552f7ff19f6c75a16f8c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 23/49] fix: duplicate features do not leave the search with
 empty clusters

---
 instancespace/stages/sifted.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 5f331f1..b8c6148 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -795,10 +795,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         cluster_labels: NDArray[np.intc] = kmeans.fit_predict(x_aux.T)
 
-        # Create a boolean matrix where each column represents a cluster
-        clust = np.zeros((x_aux.shape[1], self.opts.k), dtype=bool)
-        for i in range(self.opts.k):
-            clust[:, i] = cluster_labels == i
+        # Create a boolean matrix where each column represents a cluster. There are
+        # fewer than k of them when fewer than k features differ.
+        found = np.unique(cluster_labels)
+        clust = np.zeros((x_aux.shape[1], found.size), dtype=bool)
+        for i, label in enumerate(found):
+            clust[:, i] = cluster_labels == label
 
         return clust, cluster_labels
 
@@ -896,7 +898,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             num_parents_mating=self.opts.num_parents_mating,
             sol_per_pop=self.opts.sol_per_pop,
             gene_type=int,
-            num_genes=self.opts.k,
+            num_genes=clust.shape[1],
             parent_selection_type=self.opts.parent_selection_type,
             K_tournament=self.opts.k_tournament,
             keep_elitism=self.opts.keep_elitism,
@@ -935,7 +937,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Decode the chromosome
         decoder = np.zeros(x_aux.shape[1], dtype=bool)
-        for i in range(self.opts.k):
+        for i in range(clust.shape[1]):
             aux = np.where(clust[:, i])[0]
             selected = aux[int(best_solution[i]) % aux.size]
             decoder[selected] = True
-- 
2.43.0


From 21bd6e0b2ceb90d3f6f4c99b114145f010700bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 24/49] fix: no feature is dropped when feature selection is
 turned off

---
 instancespace/stages/sifted.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index b8c6148..05dcc9b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -558,9 +558,11 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+        if not opts.flag or nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
             print(
-                "-> There are 3 or less features to do selection.",
+                "-> Feature selection is turned off,"
+                if not opts.flag
+                else "-> There are 3 or less features to do selection.",
                 "Skipping feature selection.",
             )
             selvars = np.arange(nfeats)
-- 
2.43.0


From 30770e4300bea42dd8f6064efbe8542c697eb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 25/49] fix: the index of the selected features refers to the
 features that were kept

---
 instancespace/stages/sifted.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 05dcc9b..89e99b8 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -539,7 +539,6 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         opts = self.opts
 
         nfeats = x.shape[1]
-        idx = np.arange(nfeats)
         rng = np.random.default_rng(seed=0)
 
         # Prepare for Filter
@@ -580,7 +579,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 list(feat_labels),
                 selvars,
-                idx,
+                selvars,
                 None,
                 None,
                 None,
@@ -617,7 +616,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -643,7 +642,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -685,7 +684,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -705,7 +704,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From 5de1d8ebe3a6f0ab0db0620642ac7a9f249020c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 26/49] fix: the search for features keeps the best combination
 it has tried

---
 instancespace/stages/sifted.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 89e99b8..538c2fc 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -932,7 +932,10 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         ga_instance.run()
 
-        best_solution, best_solution_fitness, _ = ga_instance.best_solution()
+        # The best of all the solutions tried, which need not be in the last population
+        best_idx = int(np.argmax(ga_instance.solutions_fitness))
+        best_solution = ga_instance.solutions[best_idx]
+        best_solution_fitness = ga_instance.solutions_fitness[best_idx]
 
         print(f"Cost value of the GA algorithm is:  {best_solution_fitness}")
 
-- 
2.43.0


From 2b152ff90c9e6336977ceffd928728267cb77ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 27/49] fix: the reconstruction matrix of the performances
 covers the first algorithm too

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..1327244 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -265,7 +265,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From e4ad2d3bbb40cf72395afc4bac475a3a45e5277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 28/49] fix: the numerical projection reports the fit of each
 column

---
 instancespace/stages/pilot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 1327244..550b06c 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -268,7 +268,8 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            r2 = np.diag(np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]) ** 2
+            r2 = r2.astype(np.double)
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From d4d5d21f7745bc7f2bf89348d5e183fbe758479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 29/49] fix: a pre-calculated projection can be used

---
 instancespace/stages/pilot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 550b06c..f496e3b 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -221,12 +221,16 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
 
         # Numerical solution
         else:
-            if options.alpha is not None and options.alpha.shape == (2 * m + 2 * n, 1):
+            if options.alpha is not None and np.shape(options.alpha) == (
+                2 * m + 2 * n,
+                1,
+            ):
                 PilotStage._pilot_print(
                     " -> PILOT is using a pre-calculated solution.",
                     _do_output,
                 )
-                alpha = options.alpha
+                alpha = np.asarray(options.alpha, dtype=np.double)
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
-- 
2.43.0


From f38b816720239982bede8e28804c346d19990afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 30/49] fix: user-defined starting points decide the number of
 attempts

---
 instancespace/stages/pilot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index f496e3b..48dce2e 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -238,7 +238,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                         " for BFGS.",
                         _do_output,
                     )
-                    x0 = options.x0
+                    x0 = np.asarray(options.x0, dtype=np.double)
                 else:
                     PilotStage._pilot_print(
                         "  -> PILOT is using random starting points for BFGS.",
@@ -247,9 +247,9 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                     rng = np.random.default_rng(seed=0)
                     x0 = 2 * rng.random((2 * m + 2 * n, options.n_tries)) - 1
 
-                alpha = np.zeros((2 * m + 2 * n, options.n_tries))
-                eoptim = np.zeros(options.n_tries)
-                perf = np.zeros(options.n_tries)
+                alpha = np.zeros((2 * m + 2 * n, x0.shape[1]))
+                eoptim = np.zeros(x0.shape[1])
+                perf = np.zeros(x0.shape[1])
 
                 idx, alpha, eoptim, perf = PilotStage.numerical_solve(
                     x,
@@ -503,7 +503,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             _do_output,
         )
 
-        for i in range(opts.n_tries):
+        for i in range(x0.shape[1]):
             initial_guess = x0[:, i]
             result = optim.fmin_bfgs(
                 PilotStage.error_function,
-- 
2.43.0


From 0f61692828aeaa4d61a66156f41ccab1ec768fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 31/49] fix: an attempt that collapses the space is never the
 best one

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 48dce2e..0c9eba0 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -522,7 +522,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             z = np.dot(x, a.T)
 
             perf[i], _ = pearsonr(hd, pdist(z))
-            idx = np.argmax(perf).astype(int)
+            idx = np.argmax(np.nan_to_num(perf, nan=-np.inf)).astype(int)
             PilotStage._pilot_print(f"Pilot has completed trial {i + 1}", _do_output)
 
             al: NDArray[np.float16] = alpha.astype(np.float16)
-- 
2.43.0


From cd766958d4922def3a6a071b1493aad113f12e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 32/49] fix: the boundary estimate compares extremes, not
 signs, of correlated features

---
 instancespace/stages/cloister.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/cloister.py b/instancespace/stages/cloister.py
index b037358..778dde5 100644
--- a/instancespace/stages/cloister.py
+++ b/instancespace/stages/cloister.py
@@ -333,11 +333,9 @@ class CloisterStage(Stage[CloisterInput, CloisterOutput]):
                 for k in range(j + 1, nfeats):
                     # Check for valid points give the correlation trend
                     if (
-                        rho[j, k] > options.c_thres
-                        and np.sign(x_edge[i, j]) != np.sign(x_edge[i, k])
+                        rho[j, k] > options.c_thres and idx[i, j] != idx[i, k]
                     ) or (
-                        rho[j, k] < -options.c_thres
-                        and np.sign(x_edge[i, j]) == np.sign(x_edge[i, k])
+                        rho[j, k] < -options.c_thres and idx[i, j] == idx[i, k]
                     ):
                         remove[i] = True
                     if remove[i]:
-- 
2.43.0


From b9643e9002e8a7c91145de14dd5a4d0dd41dbf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 33/49] fix: the analytic projection is real also for few
 instances

---
 instancespace/stages/pilot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 0c9eba0..c848c98 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -397,7 +397,8 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
 
         covariance_matrix = np.dot(x_bar, x_bar.T)
 
-        d, v = la.eig(covariance_matrix)
+        # The covariance matrix is symmetric: its eigenvectors are real.
+        d, v = la.eigh(covariance_matrix)
 
         indices = np.argsort(np.abs(d))
         indices = indices[::-1]
-- 
2.43.0


From 8e6d100993f5d2e1f322bd4255f8e4e1fe35bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 34/49] fix: selected algorithms are indices from 0, and none
 is not the first one

---
 instancespace/stages/pythia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..b96caf2 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -144,7 +144,7 @@ class PythiaOutput(NamedTuple):
     recall : list[float]
         Recall scores for each algorithm
     selection0 : NDArray[np.int_]
-        The selected algorithm indices for each instance.
+        The selected algorithm indices for each instance, -1 if none is selected.
     selection1 : NDArray[np.int_]
         The backup selected algorithm indices for each instance.
     summary : pd.DataFrame
@@ -723,7 +723,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             selection0 = y_hat.astype(np.int_)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
@@ -802,8 +802,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From 27a0c9df7a8f2c676dc091c46b2eea14eb249bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 35/49] fix: selecting among a single algorithm

---
 instancespace/stages/pythia.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index b96caf2..2529702 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -710,17 +710,13 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         scores are non-positive), it defaults to the algorithm with the best
         average performance
         """
-        if nalgos > 1:
-            # Boardcast corresponding col of y_hat with precision
-            precision_array = np.array(precision)
-            weighted_yhat = y_hat * precision_array[np.newaxis, :]
-            # Find the maximum value for each row in weighted_yhat
-            best = np.max(weighted_yhat, axis=1)
-            # Get the index of the maximum value in each row
-            selection0 = np.argmax(weighted_yhat, axis=1)
-        else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+        # Boardcast corresponding col of y_hat with precision
+        precision_array = np.array(precision)
+        weighted_yhat = y_hat * precision_array[np.newaxis, :]
+        # Find the maximum value for each row in weighted_yhat
+        best = np.max(weighted_yhat, axis=1)
+        # Get the index of the maximum value in each row
+        selection0 = np.argmax(weighted_yhat, axis=1)
 
         selection1 = np.copy(selection0)
         selection0[best <= 0] = -1
-- 
2.43.0


From 68c11e98b5de87fb8d784e00354a58a258be1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 36/49] fix: the selector's performance on selected instances
 leaves the table alone

---
 instancespace/stages/pythia.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 2529702..124f88d 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -813,7 +813,10 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
+        # The performance filtered based on selection0
+        y_sel = y.copy()
+
+        y_sel[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
@@ -847,14 +850,14 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             "Avg_Perf_selected_instances": np.round(
                 np.append(
                     np.nanmean(y_svms, axis=0),
-                    np.array([np.nan, np.nanmean(y_full)]),
+                    np.array([np.nan, np.nanmean(y_sel)]),
                 ),
                 3,
             ),
             "Std_Perf_selected_instances": np.round(
                 np.append(
                     np.nanstd(y_svms, axis=0),
-                    np.array([np.nan, np.nanstd(y_full)]),
+                    np.array([np.nan, np.nanstd(y_sel)]),
                 ),
                 3,
             ),
-- 
2.43.0


From 1eb9fd1425a4cd9cdcd6e9009ff91333162aafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 37/49] fix: pre-calculated hyper-parameters can be used

---
 instancespace/stages/pythia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 124f88d..30d4a25 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -407,7 +407,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             param_space = (
                 PythiaStage._generate_params(rng)
                 if precalcparams is None
-                else {"C": precalcparams[i][0], "gamma": precalcparams[i][1]}
+                else {"C": [precalcparams[i][0]], "gamma": [precalcparams[i][1]]}
             )
             res = PythiaStage._fitmatsvm(
                 z=z,
@@ -674,6 +674,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         """
         if params is None:
             return None
+        # Options read from a file hold the hyper-parameters as lists
+        params = np.asarray(params, dtype=np.double)
         # Check if the shape of hyper-parameters is correct
         if params.shape != (nalgos, 2):
             print("-> Error: Incorrect number of hyper-parameters.")
-- 
2.43.0


From 60d3227ca73f190c409ccd503be553307b6b4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 38/49] fix: missing values do not turn the smallest weight
 into the largest

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 30d4a25..e5a112d 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -380,7 +380,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         if opts.use_weights:
             print(" -> PYTHIA is using cost-sensitive classification.")
             w = np.abs(y - np.nanmean(y))
-            w[w == 0] = np.min(w[w != 0])
+            w[w == 0] = np.nanmin(w[w != 0])
             w[np.isnan(w)] = np.max(w[~np.isnan(w)])
         else:
             print(" -> PYTHIA is not using cost-sensitive classification.")
-- 
2.43.0


From 7946adfaf41c00d5d09ac14a1d8e25e4faa111c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 39/49] fix: the summary lists accuracy and precision under
 their own headings

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index e5a112d..ec5606f 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -482,8 +482,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From f4958c231a7b8d65b6ef17946c68dae293d871d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 40/49] fix: a footprint of points on a line is empty

---
 instancespace/stages/trace.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..d420105 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -52,6 +52,7 @@ import alphashape
 import numpy as np
 import pandas as pd
 from numpy.typing import NDArray
+from scipy.spatial import QhullError
 from scipy.special import gamma
 from shapely.geometry import MultiPoint, MultiPolygon, Polygon
 from shapely.ops import triangulate, unary_union
@@ -727,9 +728,13 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
             return None
 
-        polygon = alphashape.alphashape(polydata, 2.15).simplify(
-            0.05,
-        )
+        try:
+            polygon = alphashape.alphashape(polydata, 2.15).simplify(
+                0.05,
+            )
+        except QhullError:
+            # Points on a line do not span a region
+            return None
 
         if not np.all(y_bin):
             if polygon.is_empty:
-- 
2.43.0


From 4e1e6c46200d7e6687f4d4c7cb4aa4cffd0d11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 41/49] fix: contradicting best footprints are resolved instead
 of crashing

---
 instancespace/stages/trace.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index d420105..b83fd3e 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -643,7 +643,12 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 print("        -> Ignoring the contradicting area.")
                 break
 
-            if base_polygon.is_empty or test_polygon.is_empty:
+            if (
+                base_polygon is None
+                or test_polygon is None
+                or base_polygon.is_empty
+                or test_polygon.is_empty
+            ):
                 break
 
             contradiction = base_polygon.intersection(test_polygon)
@@ -686,20 +691,18 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
-            polydata = self.z[criteria]
-
-            if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
-                continue
-
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            inside = np.array(
+                [splits[i].contains(point) for point in MultiPoint(self.z).geoms],
+                dtype=np.bool_,
+            )
+            polydata = np.unique(self.z[np.logical_and(inside, y_bin)], axis=0)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
-                refined_polygons.append(aux)
+                # Refining never extends the polygon
+                refined = aux.intersection(splits[i])
+                if refined.area > 0:
+                    refined_polygons.append(refined)
 
         if len(refined_polygons) > 0:
             return unary_union(refined_polygons)
-- 
2.43.0


From a8499ccd1d0dfff287355d71146654d4850dfe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:52 +0000
Subject: [PATCH 42/49] fix: saving csv tables leaves the model's summaries
 unchanged

---
 instancespace/_serialisers.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..325961e 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -177,23 +177,18 @@ def save_instance_space_to_csv(
     )
 
     trace_summary = trace_out.summary.iloc[:, [0, 2, 4, 5, 7, 9, 10]]
-    trace_summary.rename(columns={"Algorithm": "Row"}, inplace=True)
-    trace_summary.to_csv(
+    trace_summary.rename(columns={"Algorithm": "Row"}).to_csv(
         output_directory / "footprint_performance.csv",
         index=False,
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_out.summary.rename(columns={0: "Row"}).to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_out.summary.rename(columns={"Algorithms": "Row"}).to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From 36d00b1347e161772401acb8b71cfa9500c9ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 43/49] fix: colours of constant or incomplete columns stay
 between 0 and 255

---
 instancespace/_serialisers.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 325961e..75958b6 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -419,13 +419,22 @@ def _make_bind_labels(
     return pd.Series([f"bnd_pnt_{i+1}" for i in range(data.shape[0])])
 
 
+def _unit_scale(
+    data: NDArray[Any],
+    axis: int | None = None,
+) -> NDArray[np.double]:
+    """Scale to 0-1, ignoring missing values; constant data is scaled to 0."""
+    low = np.nanmin(data, axis=axis)
+    data_range = np.nanmax(data, axis=axis) - low
+    scaled: NDArray[np.double] = (data - low) / np.where(data_range == 0, 1, data_range)
+    return scaled
+
+
 def _colour_scale(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
-    data_range = np.max(data, axis=0) - np.min(data, axis=0)
-    out: NDArray[np.int_] = np.floor(
-        255.0 * ((data - np.min(data, axis=0)) / data_range),
-    ).astype(np.int_)
+    scaled = np.nan_to_num(_unit_scale(data, axis=0))
+    out: NDArray[np.int_] = np.floor(255.0 * scaled).astype(np.int_)
 
     return out
 
@@ -433,10 +442,8 @@ def _colour_scale(
 def _colour_scale_g(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
-    data_range = np.max(data) - np.min(data)
-    out: NDArray[np.int_] = np.round(
-        255.0 * ((data - np.min(data)) / data_range),
-    ).astype(np.int_)
+    scaled = np.nan_to_num(_unit_scale(data))
+    out: NDArray[np.int_] = np.round(255.0 * scaled).astype(np.int_)
 
     return out
 
-- 
2.43.0


From 41bfab169aa609e67d02a26f96d7c8449ab96593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 44/49] fix: graphs scale performances to their own and to the
 common range

---
 instancespace/_serialisers.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 75958b6..956f2e8 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -272,15 +272,9 @@ def save_instance_space_graphs(
     num_feats = data.x.shape[1]
     num_algorithms = data.y.shape[1]
 
-    x_range = np.max(data.x, axis=0) - np.min(data.x, axis=0)
-    x_aux = (data.x - np.min(data.x, axis=0)) / x_range
-
-    y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
-
-    y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
-    y_glb = (y_glb - np.min(y_glb)) / y_glb_range
+    x_aux = _unit_scale(data.x, axis=0)
+    y_ind = _unit_scale(data.y_raw, axis=0)
+    y_glb = _unit_scale(np.log10(data.y_raw + 1))
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
-- 
2.43.0


From 15f148abeb031de694d6dcbf70a14088d5beec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:42 +0000
Subject: [PATCH 45/49] fix: portfolio graphs show every instance under its own
 algorithm

---
 instancespace/_serialisers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 956f2e8..58a4b05 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -278,7 +278,7 @@ def save_instance_space_graphs(
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
-        p_foot = pythia.selection0
+        p_foot = pythia.selection0 + 1
     else:
         y_foot = data.y_bin
         p_foot = data.p
@@ -353,7 +353,7 @@ def save_instance_space_graphs(
 
     _draw_portfolio_selections(
         pilot.z,
-        pythia.selection0,
+        pythia.selection0 + 1,
         np.array(data.algo_labels),
         "Predicted best algorithm",
         output_directory / "distribution_svm_portfolio.png",
@@ -543,7 +543,7 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -593,7 +593,7 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -607,7 +607,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From e3092e60d3ebfcba3164e7a6e9758dc6ef1ad023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:55 +0000
Subject: [PATCH 46/49] fix: the archive leaves out itself and nothing else of
 the same name

---
 instancespace/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/instancespace/model.py b/instancespace/model.py
index 3f2c88f..6974443 100644
--- a/instancespace/model.py
+++ b/instancespace/model.py
@@ -157,15 +157,16 @@ class Model:
             output_directory = Path(output_directory)
 
         dir_name = DEFAULT_DIRECTARY_NAME
-        ignored_files = [".gitignore", zip_filename]
+        zip_path = output_directory / zip_filename
         with zipfile.ZipFile(
-            output_directory / zip_filename,
+            zip_path,
             "w",
             zipfile.ZIP_DEFLATED,
         ) as zf:
             for root, _, files in os.walk(output_directory):
                 for filename in files:
-                    if filename in ignored_files:
+                    path = Path(root) / filename
+                    if filename == ".gitignore" or path.samefile(zip_path):
                         continue
-                    zf.write(Path(root) / filename, arcname=Path(dir_name) / filename)
+                    zf.write(path, arcname=Path(dir_name) / filename)
         print(f"-> Successfully saved files into {zip_filename}.")
-- 
2.43.0


From 0948154177737df300a0a94cd49c96d40b94241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 47/49] fix: the parts of a footprint with stray lines are
 exported and drawn

---
 instancespace/_serialisers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 58a4b05..2acce66 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -11,7 +11,7 @@ from matplotlib.axes import Axes
 from matplotlib.colors import Normalize
 from numpy.typing import NDArray
 from scipy.io import savemat
-from shapely import MultiPolygon, Polygon
+from shapely import GeometryCollection, MultiPolygon, Polygon
 
 from instancespace.data.model import (
     CloisterOut,
@@ -51,9 +51,11 @@ def save_instance_space_to_csv(
                 boundary_coords = np.array([x, y]).T
                 boundaries = np.concatenate((boundaries, boundary_coords))
 
-            elif isinstance(best.polygon, MultiPolygon):
+            elif isinstance(best.polygon, MultiPolygon | GeometryCollection):
                 # Extract the boundary coordinates of each Polygon in MultiPolygon
                 for poly in best.polygon.geoms:
+                    if not isinstance(poly, Polygon):
+                        continue
                     x, y = poly.exterior.xy
                     boundary_coords = np.array([x, y]).T
                     boundaries = np.concatenate((boundaries, boundary_coords))
@@ -77,9 +79,11 @@ def save_instance_space_to_csv(
                 boundary_coords = np.array([x, y]).T
                 boundaries = np.concatenate((boundaries, boundary_coords))
 
-            elif isinstance(good.polygon, MultiPolygon):
+            elif isinstance(good.polygon, MultiPolygon | GeometryCollection):
                 # Extract the boundary coordinates of each Polygon in MultiPolygon
                 for poly in good.polygon.geoms:
+                    if not isinstance(poly, Polygon):
+                        continue
                     x, y = poly.exterior.xy
                     boundary_coords = np.array([x, y]).T
                     boundaries = np.concatenate((boundaries, boundary_coords))
@@ -667,8 +671,10 @@ def _draw_footprint(
             coords = footprint.polygon.exterior.coords
             polygon = mpl.patches.Polygon(coords, color=colour, alpha=alpha)
             ax.add_patch(polygon)
-        elif isinstance(footprint.polygon, MultiPolygon):
+        elif isinstance(footprint.polygon, MultiPolygon | GeometryCollection):
             for poly in footprint.polygon.geoms:
+                if not isinstance(poly, Polygon):
+                    continue
                 coords = poly.exterior.coords
                 polygon = mpl.patches.Polygon(coords, color=colour, alpha=alpha)
                 ax.add_patch(polygon)
-- 
2.43.0


From 308d9167ac93d46c6422b050d8a647edfd06d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:49 +0000
Subject: [PATCH 48/49] fix: bound infinite feature values instead of turning
 them into missing ones

---
 instancespace/stages/prelim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index ed9b0ab..6361b38 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -460,9 +460,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         hi_mask = self.x > hi_bound
         lo_mask = self.x < lo_bound
 
-        self.x = self.x * ~(hi_mask | lo_mask)
-        self.x += np.multiply(hi_mask, np.broadcast_to(hi_bound, self.x.shape))
-        self.x += np.multiply(lo_mask, np.broadcast_to(lo_bound, self.x.shape))
+        self.x = np.where(hi_mask, hi_bound, np.where(lo_mask, lo_bound, self.x))
 
         return _BoundOut(
             x=self.x,
-- 
2.43.0


From 20729cba7456e4e73402d0bac9c535272b15f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:49 +0000
Subject: [PATCH 49/49] fix: a whole number is a minimum distance, too

---
 instancespace/stages/prelim.py | 2 +-
 instancespace/stages/sifted.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 6361b38..f579ad6 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -797,7 +797,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         bydensity = (
             selvars_opts.density_flag
-            and isinstance(selvars_opts.min_distance, float)
+            and isinstance(selvars_opts.min_distance, int | float)
             and isinstance(selvars_opts.selvars_type, str)
         )
 
diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 538c2fc..72afc19 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -547,7 +547,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             and "density_flag" in opts_selvars.__dict__
             and opts_selvars.density_flag
             and "min_distance" in opts_selvars.__dict__
-            and isinstance(opts_selvars.min_distance, float)
+            and isinstance(opts_selvars.min_distance, int | float)
             and "selvars_type" in opts_selvars.__dict__
             and isinstance(opts_selvars.selvars_type, str)
         )
-- 
2.43.0

