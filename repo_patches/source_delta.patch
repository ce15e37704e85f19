From 870fcb0a2bdc06e10a1af41885380fe8b30cef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 01/48] fix: determining the absolute timing again gives the
 same times

A schedule whose timing was determined before kept stale start times (when the
schedule was shifted by a negative rel_time), added the operation delays a second
time, and never updated nested schedules. This also happened within a single
compilation when one schedule is the body of two loops.
---
 quantify_scheduler/compilation.py        | 27 +++++++++++++-----------
 quantify_scheduler/schedules/schedule.py |  2 ++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 038f029..969a76d 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -125,12 +125,11 @@ def _determine_absolute_timing_schedule(
 
     for op_key in schedule.operations:
         if isinstance(schedule.operations[op_key], Schedule):
-            if schedule.operations[op_key].get("duration", None) is None:
-                schedule.operations[op_key] = _determine_absolute_timing(
-                    schedule=schedule.operations[op_key],
-                    time_unit=time_unit,
-                    config=config,
-                )
+            schedule.operations[op_key] = _determine_absolute_timing(
+                schedule=schedule.operations[op_key],
+                time_unit=time_unit,
+                config=config,
+            )
 
         elif isinstance(schedule.operations[op_key], ControlFlowOperation):
             schedule.operations[op_key] = _determine_absolute_timing(
@@ -173,10 +172,10 @@ def _determine_absolute_timing_schedule(
         if i == 0:
             schedulable.data["abs_time"] = 0.0
         elif scheduling_strategy == SchedulingStrategy.ASAP:
-            for timing_constraint in timing_constraints:
-                abs_time = _get_start_time(schedule, timing_constraint, operation, time_unit)
-                if "abs_time" not in schedulable or abs_time > schedulable["abs_time"]:
-                    schedulable.data["abs_time"] = abs_time
+            schedulable.data["abs_time"] = max(
+                _get_start_time(schedule, timing_constraint, operation, time_unit)
+                for timing_constraint in timing_constraints
+            )
         else:
             schedulable.data["abs_time"] = _get_start_time(
                 schedule, timing_constraints[0], operation, time_unit
@@ -219,8 +218,12 @@ def _apply_operation_delays(
         if "next_operation_delay" in operation.data:
             delays[schedulable_name] = operation.data["next_operation_delay"]
         for timing_constraint in schedulable.data["timing_constraints"]:
-            if timing_constraint.ref_schedulable in delays:
-                timing_constraint.rel_time += delays[timing_constraint.ref_schedulable]
+            # The timing can be determined several times for the same schedule: only the
+            # part of the delay that is not yet included in rel_time needs to be added.
+            delay = delays.get(timing_constraint.ref_schedulable, 0)
+            if delay != timing_constraint.ref_delay:
+                timing_constraint.rel_time += delay - timing_constraint.ref_delay
+                timing_constraint.ref_delay = delay
         yield schedulable_name
 
 
diff --git a/quantify_scheduler/schedules/schedule.py b/quantify_scheduler/schedules/schedule.py
index f22fb00..fc7754c 100644
--- a/quantify_scheduler/schedules/schedule.py
+++ b/quantify_scheduler/schedules/schedule.py
@@ -974,6 +974,8 @@ class TimingConstraint:
     """The point on the to be added schedulable against which `rel_time` is defined."""
     rel_time: float
     """The time between `ref_pt` and `ref_pt_new`."""
+    ref_delay: float = 0
+    """The delay requested by `ref_schedulable` that is already included in `rel_time`."""
 
     @property
     def data(self) -> dict:
-- 
2.43.0


From 4604f26bf119a9d86914283734525562c17ce33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 02/48] fix: resolve omitted references in every timing
 constraint

Schedulable.add_timing_constraint documents that an omitted reference defaults
to the last added operation; only the first constraint did so, further ones failed
with an AssertionError.
---
 quantify_scheduler/compilation.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 969a76d..844e026 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -281,19 +281,18 @@ def _make_timing_constraints_explicit_for_schedulable(
     if strategy == SchedulingStrategy.ALAP and len(given_timing_constraints) != 1:
         raise NotImplementedError("Only exactly one timing constraint per Schedulable supported.")
 
-    timing_constraint: TimingConstraint = given_timing_constraints[0]
+    for timing_constraint in given_timing_constraints:
+        if timing_constraint.ref_schedulable is None:
+            timing_constraint.ref_schedulable = default_reference_schedulable_name
 
-    if timing_constraint.ref_schedulable is None:
-        timing_constraint.ref_schedulable = default_reference_schedulable_name
+        if timing_constraint.ref_pt is None:
+            timing_constraint.ref_pt = _determine_default_ref_pt(strategy)
 
-    if timing_constraint.ref_pt is None:
-        timing_constraint.ref_pt = _determine_default_ref_pt(strategy)
+        if timing_constraint.ref_pt_new is None:
+            timing_constraint.ref_pt_new = _determine_default_ref_pt_new(strategy)
 
-    if timing_constraint.ref_pt_new is None:
-        timing_constraint.ref_pt_new = _determine_default_ref_pt_new(strategy)
-
-    if timing_constraint.rel_time is None:
-        timing_constraint.rel_time = 0.0
+        if timing_constraint.rel_time is None:
+            timing_constraint.rel_time = 0.0
 
 
 def _determine_default_ref_pt(strategy: SchedulingStrategy) -> Literal["start", "end"]:
-- 
2.43.0


From 2d6467112c5f8c944c27e7287d34161b151a37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 03/48] fix: only hand back existing registers, and hand them
 back on errors

free_register accepted registers that do not exist (e.g. R64), after which they could be handed out;
the loop and temp_registers scopes kept their registers when an exception was raised inside.
---
 .../backends/qblox/qasm_program.py            | 22 ++++++++++---------
 .../backends/qblox/register_manager.py        | 10 +++++++--
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e376746..0081718 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -563,10 +563,11 @@ class QASMProgram:
         self.emit(q1asm_instructions.MOVE, repetitions, register, comment=comment)
         self.emit(q1asm_instructions.NEW_LINE, label=label)
 
-        yield register
-
-        self.emit(q1asm_instructions.LOOP, register, f"@{label}")
-        self.register_manager.free_register(register)
+        try:
+            yield register
+            self.emit(q1asm_instructions.LOOP, register, f"@{label}")
+        finally:
+            self.register_manager.free_register(register)
 
         last_elapsed_time = self._elapsed_times_in_loops.pop()
 
@@ -590,12 +591,13 @@ class QASMProgram:
 
         """
         registers: list[str] = list()
-        for _ in range(amount):
-            registers.append(self.register_manager.allocate_register())
-        yield registers
-
-        for reg in registers:
-            self.register_manager.free_register(reg)
+        try:
+            for _ in range(amount):
+                registers.append(self.register_manager.allocate_register())
+            yield registers
+        finally:
+            for reg in registers:
+                self.register_manager.free_register(reg)
 
     @staticmethod
     def parse_program_line(
diff --git a/quantify_scheduler/backends/qblox/register_manager.py b/quantify_scheduler/backends/qblox/register_manager.py
index b7b9bbb..f5b2821 100644
--- a/quantify_scheduler/backends/qblox/register_manager.py
+++ b/quantify_scheduler/backends/qblox/register_manager.py
@@ -11,9 +11,10 @@ class RegisterManager:
     """Utility class that keeps track of all the registers that are still available."""
 
     def __init__(self) -> None:
-        self._available_registers: list[str] = [
+        self._all_registers: tuple[str, ...] = tuple(
             f"R{idx}" for idx in range(constants.NUMBER_OF_REGISTERS)
-        ]
+        )
+        self._available_registers: list[str] = list(self._all_registers)
 
     def allocate_register(self) -> str:
         """
@@ -57,6 +58,11 @@ class RegisterManager:
 
         """
         _verify_valid_register(register)
+        if register not in self._all_registers:
+            raise ValueError(
+                f"Register '{register}' does not exist, the available registers are "
+                f"'{self._all_registers[0]}' to '{self._all_registers[-1]}'."
+            )
         if register in self.available_registers:
             raise RuntimeError(
                 f"Attempting to free register '{register}', but this register is not inuse."
-- 
2.43.0


From 25f6b65b2dcd3dc6eed530c8ae30f2c13c7b08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 04/48] fix: count every real time instruction of a conditional
 section

Loops inside a conditional section, acquisitions that consist of two instructions, latch resets, the
marker debug mode and else waits that need more than one instruction were counted as one instruction, so
that the section took a different time depending on the measurement outcome.
---
 quantify_scheduler/backends/qblox/analog.py   |  1 +
 .../qblox/operation_handling/acquisitions.py  |  4 +++
 .../qblox/operation_handling/virtual.py       |  1 +
 .../backends/qblox/qasm_program.py            | 27 ++++++++++++++++---
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 64ccb86..421352a 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -523,6 +523,7 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 constants.MIN_TIME_BETWEEN_OPERATIONS,
             )
             qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+            qasm_program.conditional_manager.num_real_time_instructions += 1
 
         else:
             op_strategy.insert_qasm(qasm_program)
diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index de745bc..e28e7da 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -379,6 +379,7 @@ class TriggerCountAcquisitionStrategy(AcquisitionStrategyPartial):
             f"bin_mode:{self.bin_mode}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
     def _acquire_with_register_bin_index(self, qasm_program: QASMProgram) -> None:
         """
@@ -419,6 +420,7 @@ class TriggerCountAcquisitionStrategy(AcquisitionStrategyPartial):
             f"store in bin:{self.bin_idx_register}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
         qasm_program.emit(
             q1asm_instructions.ADD,
@@ -487,6 +489,7 @@ class TimetagAcquisitionStrategy(AcquisitionStrategyPartial):
             f"bin_mode:{self.bin_mode}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
     def _acquire_with_register_bin_index(self, qasm_program: QASMProgram) -> None:
         """
@@ -553,6 +556,7 @@ class TimetagAcquisitionStrategy(AcquisitionStrategyPartial):
             f"store in bin:{self.bin_idx_register}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        qasm_program.conditional_manager.num_real_time_instructions += 1
         if fine_start_delay_reg == fine_end_delay_reg:
             qasm_program.register_manager.free_register(fine_start_delay_reg)
         else:
diff --git a/quantify_scheduler/backends/qblox/operation_handling/virtual.py b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
index fd13b5c..8a08a02 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/virtual.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
@@ -217,6 +217,7 @@ class ResetFeedbackTriggersStrategy(IdleStrategy):
             comment="reset trigger count",
         )
         qasm_program.elapsed_time += duration
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
 
 class UpdateParameterStrategy(IdleStrategy):
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 0081718..1c0ef6f 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -5,6 +5,7 @@
 
 from __future__ import annotations
 
+import math
 import re
 from contextlib import contextmanager
 from typing import (
@@ -493,13 +494,19 @@ class QASMProgram:
             constants.MIN_TIME_BETWEEN_OPERATIONS,
             comment="else wait",
         )
-        # autowait now adds an additional duration to elapsed time that we need to compensate.
-        duration = (
+        # autowait now adds an additional duration to elapsed time that we need to compensate:
+        # when the condition holds, each wait instruction in the else branch takes 4 ns.
+        missing_duration = (
             self.conditional_manager.duration
             - constants.MIN_TIME_BETWEEN_OPERATIONS
             * self.conditional_manager.num_real_time_instructions
-            + constants.MIN_TIME_BETWEEN_OPERATIONS
         )
+        max_duration_per_wait = (
+            constants.IMMEDIATE_MAX_WAIT_TIME - constants.MIN_TIME_BETWEEN_OPERATIONS
+        )
+        num_waits = max(1, math.ceil(missing_duration / max_duration_per_wait))
+        else_duration = constants.MIN_TIME_BETWEEN_OPERATIONS * num_waits
+        duration = missing_duration + else_duration
         self.auto_wait(duration, count_as_elapsed_time=False)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
@@ -509,7 +516,7 @@ class QASMProgram:
             0,
             comment="stop conditional playback",
         )
-        self.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        self.elapsed_time += else_duration
 
         self.conditional_manager.reset()
         self._lock_conditional = False
@@ -557,6 +564,10 @@ class QASMProgram:
         """
         register = self.register_manager.allocate_register()
         comment = f"iterator for loop with label {label}"
+        # A conditional section can be inside this loop or around it, but only in the latter
+        # case the real time instructions of each iteration count towards the section.
+        inside_conditional = self._lock_conditional
+        num_real_time_before_loop = self.conditional_manager.num_real_time_instructions
 
         self._elapsed_times_in_loops.append(0)
 
@@ -573,6 +584,14 @@ class QASMProgram:
 
         self._elapsed_times_in_loops[-1] += last_elapsed_time * repetitions
 
+        if inside_conditional:
+            num_real_time_per_iteration = (
+                self.conditional_manager.num_real_time_instructions - num_real_time_before_loop
+            )
+            self.conditional_manager.num_real_time_instructions = (
+                num_real_time_before_loop + num_real_time_per_iteration * repetitions
+            )
+
     @contextmanager
     def temp_registers(self, amount: int = 1) -> Iterator[list[str]]:
         """
-- 
2.43.0


From 6c3f1c5dff5c71a1fbcbc288e1fe803250085693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 05/48] fix: run clock operations inside loops and conditionals
 on every sequencer

Operations on a clock without a port are executed by every sequencer using that
clock. Those sequencers did not get the surrounding loop or conditional unless
they also played something in it: phase shifts were applied once instead of in
every iteration, applied regardless of the condition, and a body containing
nothing else failed to compile.
---
 quantify_scheduler/backends/qblox/helpers.py | 70 ++++++++++++++++++--
 quantify_scheduler/backends/qblox_backend.py | 14 ++--
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 60dc625..c771fc3 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -630,12 +630,62 @@ class ConditionalBegin(Operation):
         return self._get_signature(self.data["control_flow_info"])
 
 
+def _get_clocks_used_without_port(operation: Operation | Schedule) -> set[str]:
+    """Clocks that the operation acts on without specifying a port, e.g. by a phase shift."""
+    if isinstance(operation, ScheduleBase):
+        clocks: set[str] = set()
+        for inner_operation in operation.operations.values():
+            clocks |= _get_clocks_used_without_port(inner_operation)
+        return clocks
+    if isinstance(operation, ControlFlowOperation):
+        return _get_clocks_used_without_port(operation.body)
+    return {
+        pulse_info["clock"]
+        for pulse_info in operation.data["pulse_info"]
+        if pulse_info["port"] is None
+        and any(
+            key in pulse_info
+            for key in ("phase_shift", "reset_clock_phase", "clock_freq_new", "timestamp")
+        )
+    }
+
+
+def get_control_flow_port_clocks(
+    control_flow_operation: ControlFlowOperation,
+    schedule_port_clocks: set[tuple[str, str]],
+) -> set[tuple[str, str]]:
+    """
+    Port-clock combinations that execute the body of a control flow operation.
+
+    Operations that act on a clock without specifying a port are executed by every
+    sequencer that uses that clock, and therefore those sequencers need to execute the
+    control flow operation as well.
+
+    Parameters
+    ----------
+    control_flow_operation
+        The control flow operation.
+    schedule_port_clocks
+        All port-clock combinations that are used in the whole schedule.
+
+    Returns
+    -------
+    :
+        The (port, clock) combinations.
+
+    """
+    clocks = _get_clocks_used_without_port(control_flow_operation.body)
+    return control_flow_operation.get_used_port_clocks() | {
+        (port, clock) for port, clock in schedule_port_clocks if clock in clocks
+    }
+
+
 def _get_control_flow_begin(
     control_flow_operation: ControlFlowOperation,
+    port_clocks: set[tuple[str, str]],
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
     if isinstance(control_flow_operation, LoopOperation):
         begin_operation: Operation = LoopBegin(
             control_flow_operation.data["control_flow_info"]["repetitions"],
@@ -702,10 +752,10 @@ class _ControlFlowReturn(Operation):
 
 def _get_control_flow_end(
     control_flow_operation: ControlFlowOperation,
+    port_clocks: set[tuple[str, str]],
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
     end_operation: Operation = _ControlFlowReturn()
     end_operation["pulse_info"] = [
         {
@@ -726,6 +776,7 @@ def _get_list_of_operations_for_op_info_creation(
     time_offset: float,
     accumulator: list[tuple[float, Operation, FullSchedulableLabel]],
     full_schedulable_label: FullSchedulableLabel,
+    schedule_port_clocks: set[tuple[str, str]],
 ) -> None:
     if isinstance(operation, ScheduleBase):
         for schedulable in operation.schedulables.values():
@@ -738,12 +789,14 @@ def _get_list_of_operations_for_op_info_creation(
                 time_offset + abs_time,
                 accumulator,
                 new_full_schedulable_label,
+                schedule_port_clocks,
             )
     elif isinstance(operation, ControlFlowOperation):
+        port_clocks = get_control_flow_port_clocks(operation, schedule_port_clocks)
         accumulator.append(
             (
                 to_grid_time(time_offset) * 1e-9,
-                _get_control_flow_begin(operation),
+                _get_control_flow_begin(operation, port_clocks),
                 full_schedulable_label + (None,),
             )
         )
@@ -753,12 +806,13 @@ def _get_list_of_operations_for_op_info_creation(
             time_offset,
             accumulator,
             new_full_schedulable_label,
+            schedule_port_clocks,
         )
         assert operation.body.duration is not None
         accumulator.append(
             (
                 to_grid_time(time_offset + operation.body.duration) * 1e-9,
-                _get_control_flow_end(operation),
+                _get_control_flow_end(operation, port_clocks),
                 full_schedulable_label + (None,),
             )
         )
@@ -938,7 +992,9 @@ def assign_pulse_and_acq_info_to_devices(
     portclock_mapping = generate_port_clock_to_device_map(device_compilers)
 
     list_of_operations: list[tuple[float, Operation, FullSchedulableLabel]] = list()
-    _get_list_of_operations_for_op_info_creation(schedule, 0, list_of_operations, ())
+    _get_list_of_operations_for_op_info_creation(
+        schedule, 0, list_of_operations, (), schedule.get_used_port_clocks()
+    )
     list_of_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
 
     for operation_start_time, operation, optional_full_schedulable_label in list_of_operations:
@@ -947,6 +1003,10 @@ def assign_pulse_and_acq_info_to_devices(
         if isinstance(operation, WindowOperation):
             continue
 
+        if operation.is_control_flow and not operation.valid_pulse:
+            # No sequencer executes anything inside this control flow operation.
+            continue
+
         if (
             not operation.valid_pulse
             and not operation.valid_acquisition
diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 5e2415f..3ef7ae7 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -34,6 +34,7 @@ from quantify_scheduler.backends.qblox.enums import ChannelMode
 from quantify_scheduler.backends.qblox.helpers import (
     _generate_new_style_hardware_compilation_config,
     assign_pulse_and_acq_info_to_devices,
+    get_control_flow_port_clocks,
 )
 from quantify_scheduler.backends.qblox.operations import long_ramp_pulse, long_square_pulse
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
@@ -442,6 +443,7 @@ def _set_conditional_info_map(
     operation: Operation | Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
     compilation_config: CompilationConfig,
+    schedule_port_clocks: set[tuple[str, str]],
 ) -> None:
     if isinstance(operation, ScheduleBase):
         for inner_operation in operation.operations.values():
@@ -449,6 +451,7 @@ def _set_conditional_info_map(
                 operation=inner_operation,
                 conditional_info_map=conditional_info_map,
                 compilation_config=compilation_config,
+                schedule_port_clocks=schedule_port_clocks,
             )
     elif isinstance(operation, ConditionalOperation):
         # Store `feedback_trigger_address` in the pulse that corresponds
@@ -467,15 +470,16 @@ def _set_conditional_info_map(
             feedback_trigger_label
         ].trigger_count
 
-        conditional_info_map[
-            feedback_trigger_label
-        ].portclocks |= operation.body.get_used_port_clocks()
+        conditional_info_map[feedback_trigger_label].portclocks |= get_control_flow_port_clocks(
+            operation, schedule_port_clocks
+        )
 
     elif isinstance(operation, ControlFlowOperation):
         _set_conditional_info_map(
             operation=operation.body,
             conditional_info_map=conditional_info_map,
             compilation_config=compilation_config,
+            schedule_port_clocks=schedule_port_clocks,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         # Store `feedback_trigger_address` in the correct acquisition, so that it can
@@ -611,7 +615,9 @@ def compile_conditional_playback(  # noqa: D417
     conditional_info_map = defaultdict(
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
-    _set_conditional_info_map(schedule, conditional_info_map, config)
+    _set_conditional_info_map(
+        schedule, conditional_info_map, config, schedule.get_used_port_clocks()
+    )
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From a065e2bc8eec45a80c290bf57086f5297393b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 06/48] fix: keep operations outside loops and conditionals
 that share their start or end time

---
 quantify_scheduler/backends/qblox/helpers.py | 41 ++++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index c771fc3..9e4901c 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -771,6 +771,33 @@ def _get_control_flow_end(
     return end_operation
 
 
+def _get_flattened_operations(
+    schedule: ScheduleBase,
+    time_offset: float,
+    full_schedulable_label: FullSchedulableLabel,
+) -> list[tuple[int, float, Operation, FullSchedulableLabel]]:
+    """
+    Get the operations of a schedule and of the schedules nested in it.
+
+    Bodies of control flow operations are not included. Each operation is returned
+    together with its grid time, absolute time, and its full label.
+    """
+    flattened_operations = []
+    for schedulable in schedule.schedulables.values():
+        abs_time = time_offset + schedulable["abs_time"]
+        operation = schedule.operations[schedulable["operation_id"]]
+        schedulable_label = full_schedulable_label + (schedulable["name"],)
+        if isinstance(operation, ScheduleBase):
+            flattened_operations += _get_flattened_operations(
+                operation, abs_time, schedulable_label
+            )
+        else:
+            flattened_operations.append(
+                (to_grid_time(abs_time), abs_time, operation, schedulable_label)
+            )
+    return flattened_operations
+
+
 def _get_list_of_operations_for_op_info_creation(
     operation: Operation | Schedule,
     time_offset: float,
@@ -779,16 +806,16 @@ def _get_list_of_operations_for_op_info_creation(
     schedule_port_clocks: set[tuple[str, str]],
 ) -> None:
     if isinstance(operation, ScheduleBase):
-        for schedulable in operation.schedulables.values():
-            abs_time = schedulable["abs_time"]
-            inner_operation = operation.operations[schedulable["operation_id"]]
-            schedulable_label = schedulable["name"]
-            new_full_schedulable_label = full_schedulable_label + (schedulable_label,)
+        inner_operations = _get_flattened_operations(operation, time_offset, full_schedulable_label)
+        # Operations sharing a time with the start or the end of a control flow are not
+        # part of it, regardless of the order in which they were added to the schedule.
+        inner_operations.sort(key=lambda op: (op[0], isinstance(op[2], ControlFlowOperation)))
+        for _, abs_time, inner_operation, inner_schedulable_label in inner_operations:
             _get_list_of_operations_for_op_info_creation(
                 inner_operation,
-                time_offset + abs_time,
+                abs_time,
                 accumulator,
-                new_full_schedulable_label,
+                inner_schedulable_label,
                 schedule_port_clocks,
             )
     elif isinstance(operation, ControlFlowOperation):
-- 
2.43.0


From 8616513def3b0582d6703395cb65010daaa67960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 07/48] fix: trigger conditional playback with weighted
 thresholded acquisitions

---
 quantify_scheduler/backends/qblox_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 3ef7ae7..a4c6a2a 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -488,6 +488,7 @@ def _set_conditional_info_map(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
                 DualThresholdedTriggerCount.__name__,
             ):
@@ -527,6 +528,7 @@ def _insert_latch_reset(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
             ):
                 if (feedback_trigger_label := info.get("feedback_trigger_label")) is not None:
-- 
2.43.0


From 669aea63008af1b888119384a50411b21e6d2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 08/48] fix: use the trigger settings of acquisitions added
 after the conditional

---
 quantify_scheduler/backends/qblox_backend.py | 38 ++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index a4c6a2a..e8a2d42 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -454,22 +454,9 @@ def _set_conditional_info_map(
                 schedule_port_clocks=schedule_port_clocks,
             )
     elif isinstance(operation, ConditionalOperation):
-        # Store `feedback_trigger_address` in the pulse that corresponds
-        # to a conditional control flow.
         # Note, we do not allow recursive conditional calls, so no need to
         # go recursively into conditionals.
-        control_flow_info: dict = operation.data["control_flow_info"]
-        feedback_trigger_label: str = control_flow_info["feedback_trigger_label"]
-        control_flow_info["feedback_trigger_address"] = conditional_info_map[
-            feedback_trigger_label
-        ].address
-        control_flow_info["feedback_trigger_invert"] = conditional_info_map[
-            feedback_trigger_label
-        ].trigger_invert
-        control_flow_info["feedback_trigger_count"] = conditional_info_map[
-            feedback_trigger_label
-        ].trigger_count
-
+        feedback_trigger_label: str = operation.data["control_flow_info"]["feedback_trigger_label"]
         conditional_info_map[feedback_trigger_label].portclocks |= get_control_flow_port_clocks(
             operation, schedule_port_clocks
         )
@@ -499,6 +486,28 @@ def _set_conditional_info_map(
                 )
 
 
+def _set_conditional_feedback_trigger(
+    operation: Operation | Schedule,
+    conditional_info_map: defaultdict[str, ConditionalInfo],
+) -> None:
+    """
+    Store the feedback trigger settings in the conditional control flows.
+
+    The ``conditional_info_map`` must contain the settings of all acquisitions.
+    """
+    if isinstance(operation, ScheduleBase):
+        for inner_operation in operation.operations.values():
+            _set_conditional_feedback_trigger(inner_operation, conditional_info_map)
+    elif isinstance(operation, ConditionalOperation):
+        control_flow_info: dict = operation.data["control_flow_info"]
+        conditional_info = conditional_info_map[control_flow_info["feedback_trigger_label"]]
+        control_flow_info["feedback_trigger_address"] = conditional_info.address
+        control_flow_info["feedback_trigger_invert"] = conditional_info.trigger_invert
+        control_flow_info["feedback_trigger_count"] = conditional_info.trigger_count
+    elif isinstance(operation, ControlFlowOperation):
+        _set_conditional_feedback_trigger(operation.body, conditional_info_map)
+
+
 def _insert_latch_reset(
     operation: Operation | Schedule,
     abs_time_relative_to_schedule: float,
@@ -620,6 +629,7 @@ def compile_conditional_playback(  # noqa: D417
     _set_conditional_info_map(
         schedule, conditional_info_map, config, schedule.get_used_port_clocks()
     )
+    _set_conditional_feedback_trigger(schedule, conditional_info_map)
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From a987b1f2d5c9740db688bb8db8877b1dec94e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 09/48] fix: reset the trigger counters once in schedules that
 are used multiple times

---
 quantify_scheduler/backends/qblox_backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index e8a2d42..517504a 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -513,8 +513,15 @@ def _insert_latch_reset(
     abs_time_relative_to_schedule: float,
     schedule: Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
+    completed_schedules: set[int] | None = None,
 ) -> None:
+    if completed_schedules is None:
+        completed_schedules = set()
     if isinstance(operation, ScheduleBase):
+        # The same schedule can be used multiple times, but must be changed only once.
+        if id(operation) in completed_schedules:
+            return
+        completed_schedules.add(id(operation))
         schedulables = list(operation.schedulables.values())
         for schedulable in schedulables:
             abs_time = schedulable.data["abs_time"]
@@ -524,6 +531,7 @@ def _insert_latch_reset(
                 abs_time_relative_to_schedule=abs_time,
                 schedule=operation,
                 conditional_info_map=conditional_info_map,
+                completed_schedules=completed_schedules,
             )
     elif isinstance(operation, LoopOperation):
         _insert_latch_reset(
@@ -531,6 +539,7 @@ def _insert_latch_reset(
             abs_time_relative_to_schedule=abs_time_relative_to_schedule,
             schedule=schedule,
             conditional_info_map=conditional_info_map,
+            completed_schedules=completed_schedules,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         acq_info = operation["acquisition_info"]
-- 
2.43.0


From 3ed6a9cc490a11d939a54a3a6c27bc71017d0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 10/48] fix: reject acquisition weights below -1

---
 .../backends/qblox/operation_handling/acquisitions.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index e28e7da..e94aa1b 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -239,9 +239,9 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if abs(max(waveform_data)) > 1:
+            if np.any(np.abs(waveform_data) > 1):
                 first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if x > 1
+                    (i, x) for i, x in enumerate(waveform_data) if np.abs(x) > 1
                 )
                 total = sum(np.abs(waveform_data) > 1)
                 raise ValueError(
-- 
2.43.0


From 24363b9b23377e38796e2ddc3fedd539386c7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 11/48] fix: let staircase pulses go down

---
 quantify_scheduler/waveforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index da5d7ab..555dd58 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -88,10 +88,10 @@ def staircase(
         duration = float(t[-1] - t[0])
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
-    waveform = np.floor(t * (num_steps / duration)) * amp_step + start_amp
     # Replace out of range values with start_amp or final_amp.
     # In most cases that would only happen when `duration in t`
-    return np.minimum(np.maximum(waveform, start_amp), final_amp)
+    step = np.clip(np.floor(t * (num_steps / duration)), 0, num_steps - 1)
+    return step * amp_step + start_amp
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From fa0014937cbbfce5fff9827b3a8ae8f516fcd820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 12/48] fix: sample pulses without adding or losing samples to
 rounding errors

---
 quantify_scheduler/helpers/waveforms.py | 4 +++-
 quantify_scheduler/waveforms.py         | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 67a97c6..cdc9b83 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -175,7 +175,9 @@ def get_waveform(
         The waveform.
 
     """
-    t: np.ndarray = np.arange(0, 0 + pulse_info["duration"], 1 / sampling_rate)
+    # The rounding keeps rounding errors of the product from adding a sample.
+    num_samples = math.ceil(round(pulse_info["duration"] * sampling_rate, 6))
+    t: np.ndarray = np.arange(num_samples) * (1 / sampling_rate)
     wf_func: str = pulse_info["wf_func"]
     waveform: np.ndarray = exec_waveform_function(wf_func, t, pulse_info)
 
diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 555dd58..2f8a283 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -345,9 +345,10 @@ def sudden_net_zero(
 
     """
     sampling_rate = t[1] - t[0]
-    single_arm_samples = int(t_pulse / 2 / sampling_rate)
-    mid_samples = int(t_phi / sampling_rate)
-    num_corr_samples = int(t_integral_correction / sampling_rate)
+    # Whole numbers of samples may come out slightly lower than they are.
+    single_arm_samples = int(round(t_pulse / 2 / sampling_rate, 6))
+    mid_samples = int(round(t_phi / sampling_rate, 6))
+    num_corr_samples = int(round(t_integral_correction / sampling_rate, 6))
 
     if 2 * single_arm_samples + mid_samples + num_corr_samples > len(t):
         raise ValueError(
-- 
2.43.0


From 64d9ccbae7b1c86170c8263db8fd4ba008de90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 13/48] fix: end long ramps of zero amplitude with a zero
 voltage offset

A ramp with an offset but without amplitude left its voltage offset on
while the last part added the offset again.
---
 .../backends/qblox/operations/pulse_factories.py              | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_factories.py b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
index 485b1d1..4fd0af3 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_factories.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
@@ -303,9 +303,7 @@ def long_ramp_pulse(
     # 'UpdateParameters' instruction at the end.
 
     # Insert a 0 offset if offsets were inserted above and the last offset is not 0.
-    if not math.isclose(last_sample_voltage, offset) and not math.isclose(
-        last_sample_voltage - amp_part, 0.0
-    ):
+    if num_whole_parts > 0 and not math.isclose(last_sample_voltage - amp_part, 0.0):
         builder.add_voltage_offset(path_I=0.0, path_Q=0.0)
     builder.add_pulse(
         pulse_library.RampPulse(
-- 
2.43.0


From a36b05fd8cacd643f73d9fb7797fb7be0fb10b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 14/48] fix: end staircase pulses at exactly their final
 amplitude

Rounding errors could make a staircase to full scale exceed it.
---
 quantify_scheduler/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 2f8a283..5249548 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -91,7 +91,7 @@ def staircase(
     # Replace out of range values with start_amp or final_amp.
     # In most cases that would only happen when `duration in t`
     step = np.clip(np.floor(t * (num_steps / duration)), 0, num_steps - 1)
-    return step * amp_step + start_amp
+    return np.where(step == num_steps - 1, final_amp, step * amp_step + start_amp)
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From 563e02d87493bae8d9928fff3e5c9a88a085b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 15/48] fix: find pulses overlapping with voltage offsets
 behind other operations

Only the last or the next operation was compared, on whatever port, so that
an operation on another port hid an overlap. Pulses that start and end
together overlap too.
---
 quantify_scheduler/backends/qblox_backend.py | 71 ++++----------------
 1 file changed, 14 insertions(+), 57 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 517504a..d5f19b0 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -11,7 +11,7 @@ from abc import ABC
 from collections import defaultdict
 from copy import deepcopy
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Any, Literal
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 from pydantic import Field, model_validator
@@ -2048,61 +2048,22 @@ def validate_non_overlapping_stitched_pulse(schedule: Schedule) -> None:
     _all_abs_times_ops_with_voltage_offsets_pulses(schedule, 0, abs_times_and_operations)
     abs_times_and_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
 
-    # Iterate through all relevant operations in chronological order, and keep track of the
-    # latest end time of schedulables containing pulses.
-    # When a schedulable contains a voltage offset, check if it starts before the end of
-    # a previously found pulse, else look ahead for any schedulables with pulses
-    # starting before this schedulable ends.
-    last_pulse_end = -np.inf
-    last_pulse_abs_time = None
-    last_pulse_op = None
+    # Compare every operation with all operations starting before it ends.
     for i, (abs_time_op, op) in enumerate(abs_times_and_operations):
-        if op.has_voltage_offset:
-            # Add 1e-10 for possible floating point errors (strictly >).
-            if last_pulse_end > abs_time_op + 1e-10:
-                if last_pulse_abs_time is None or last_pulse_op is None:
-                    # This error should be unreachable.
-                    raise RuntimeError(
-                        f"{last_pulse_abs_time=} and {last_pulse_op} may not be None at this point."
-                    )
-                _raise_if_pulses_overlap_on_same_port_clock(
-                    abs_time_op,
-                    op,
-                    last_pulse_abs_time,
-                    last_pulse_op,
-                )
-            elif other := _exists_pulse_starting_before_current_end(
-                abs_times_and_operations,
-                i,
-            ):
-                abs_time_other = other[0]
-                op_other = other[1]
+        current_end = _operation_end((abs_time_op, op))
+        for j in range(i + 1, len(abs_times_and_operations)):
+            abs_time_other, op_other = abs_times_and_operations[j]
+            # An operation starting at the exact time a previous one ends does not count
+            # as overlapping. Subtract 1e-10 for possible floating point errors.
+            if abs_time_other >= current_end - 1e-10:
+                break
+            if op.has_voltage_offset or op_other.has_voltage_offset:
                 _raise_if_pulses_overlap_on_same_port_clock(
-                    abs_time_op,
-                    op,
                     abs_time_other,
                     op_other,
+                    abs_time_op,
+                    op,
                 )
-        if op.valid_pulse:
-            last_pulse_end = _operation_end((abs_time_op, op))
-            last_pulse_abs_time = abs_time_op
-            last_pulse_op = op
-
-
-def _exists_pulse_starting_before_current_end(
-    abs_times_and_operations: list[tuple[float, Operation]], current_idx: int
-) -> tuple[float, Operation] | Literal[False]:
-    current_end = _operation_end(abs_times_and_operations[current_idx])
-    for i in range(current_idx + 1, len(abs_times_and_operations)):
-        abs_time = abs_times_and_operations[i][0]
-        operation = abs_times_and_operations[i][1]
-        # Schedulable starting at the exact time a previous one ends does not count as
-        # overlapping. Subtract 1e-10 for possible floating point errors.
-        if abs_time >= current_end - 1e-10:
-            return False
-        if operation.valid_pulse or operation.has_voltage_offset:
-            return abs_time, operation
-    return False
 
 
 def _raise_if_pulses_overlap_on_same_port_clock(
@@ -2122,12 +2083,8 @@ def _raise_if_pulses_overlap_on_same_port_clock(
     for port_clock in common_ports:
         start_a, end_a = pulse_start_ends_per_port_a[port_clock]
         start_b, end_b = pulse_start_ends_per_port_b[port_clock]
-        if (
-            start_b < start_a < end_b
-            or start_b < end_a < end_b
-            or start_a < start_b < end_a
-            or start_a < end_b < end_a
-        ):
+        # Add 1e-10 for possible floating point errors (strictly <).
+        if start_a + 1e-10 < end_b and start_b + 1e-10 < end_a:
             raise RuntimeError(
                 f"{op_a} at t={abs_time_a} and {op_b} at t="
                 f"{abs_time_b} contain pulses with voltage offsets that "
-- 
2.43.0


From 6a91a94bfc7a343c9b7eaf5d05a7406983572b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 16/48] fix: keep the duration when converting a pulse with a
 start time to a numerical pulse

---
 quantify_scheduler/backends/qblox/operations/stitched_pulse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operations/stitched_pulse.py b/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
index d1c96b0..7598c36 100644
--- a/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
+++ b/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
@@ -132,7 +132,8 @@ def convert_to_numerical_pulse(
     pulse_t0: float = min(p_i["t0"] for p_i in operation["pulse_info"])
     # Round to nanoseconds, to avoid rounding errors.
     timestamps = np.round(
-        pulse_t0 + np.arange(round(operation.duration * sampling_rate) + 1) / sampling_rate,
+        pulse_t0
+        + np.arange(round((operation.duration - pulse_t0) * sampling_rate) + 1) / sampling_rate,
         decimals=9,
     )
 
-- 
2.43.0


From 2d4baddb3bb225ee893856baa755919f1148dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 17/48] fix: stack the pulses of operations one by one, and
 those inside of loops, without losing acquisitions or doubling samples

---
 .../backends/qblox/stack_pulses.py            | 203 ++++++++++--------
 1 file changed, 117 insertions(+), 86 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 214740d..7eed0f2 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -8,18 +8,22 @@ import uuid
 from collections import defaultdict, namedtuple
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 
 from quantify_scheduler.backends.qblox import constants, helpers
-from quantify_scheduler.backends.qblox.helpers import is_square_pulse, to_grid_time
+from quantify_scheduler.backends.qblox.helpers import to_grid_time
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
     SimpleNumericalPulse,
 )
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+from quantify_scheduler.operations.pulse_library import SquarePulse
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 if TYPE_CHECKING:
+    from collections.abc import Iterator
+
     from quantify_scheduler.operations import Operation
 
 
@@ -29,7 +33,7 @@ class PulseInterval:
 
     start_time: float
     end_time: float
-    pulse_keys: set[str]
+    pulse_keys: list[tuple[str, int]]
 
 
 @dataclass
@@ -38,7 +42,8 @@ class PulseParameters:
 
     time: float
     is_end: bool
-    schedulable_key: str
+    pulse_key: tuple[str, int]
+    """Key of the schedulable, and index in the pulse_info of its operation."""
 
 
 PortClock = namedtuple("PortClock", ["port", "clock"])
@@ -63,13 +68,16 @@ def stack_pulses(schedule: Schedule, config) -> Schedule:  # noqa: D417, ARG001,
 
     """
     pulses_by_port_clock = _construct_pulses_by_port_clock(schedule)
+    old_pulse_keys = set()
 
     for pulses in pulses_by_port_clock.values():
         sorted_pulses = sorted(pulses, key=lambda pulse: (pulse.time, pulse.is_end))
         pulses_by_interval = _construct_pulses_by_interval(sorted_pulses)
 
         if any(len(overlap.pulse_keys) > 1 for overlap in pulses_by_interval):
-            schedule = _stack_pulses_by_interval(schedule, pulses_by_interval)
+            old_pulse_keys |= _stack_pulses_by_interval(schedule, pulses_by_interval)
+
+    _remove_pulses(schedule, old_pulse_keys)
 
     return schedule
 
@@ -84,30 +92,36 @@ def _construct_pulses_by_port_clock(
         if isinstance(op, Schedule):
             schedule.operations[schedulable["operation_id"]] = stack_pulses(op, {})
             continue
-        elif not op.valid_pulse or not op.data.get("pulse_info"):
+        elif isinstance(op, ControlFlowOperation):
+            while isinstance(op.body, ControlFlowOperation):
+                op = op.body
+            if isinstance(op.body, Schedule):
+                op.body = stack_pulses(op.body, {})
             continue
-
-        pulse_info = next(iter(op.data["pulse_info"]))
-        if not pulse_info.get("wf_func"):
+        elif not op.valid_pulse or op.has_voltage_offset:
             continue
-        port_clock = PortClock(pulse_info["port"], pulse_info["clock"])
-        start_time = schedulable["abs_time"] + pulse_info["t0"]
-        end_time = start_time + pulse_info["duration"]
-
-        pulses_by_port_clock[port_clock].extend(
-            [
-                PulseParameters(
-                    time=round(to_grid_time(start_time) * (1 / constants.SAMPLING_RATE), 9),
-                    is_end=False,
-                    schedulable_key=schedulable_key,
-                ),
-                PulseParameters(
-                    time=round(to_grid_time(end_time) * (1 / constants.SAMPLING_RATE), 9),
-                    is_end=True,
-                    schedulable_key=schedulable_key,
-                ),
-            ]
-        )
+
+        for index, pulse_info in enumerate(op.data["pulse_info"]):
+            if not pulse_info.get("wf_func"):
+                continue
+            port_clock = PortClock(pulse_info["port"], pulse_info["clock"])
+            start_time = schedulable["abs_time"] + pulse_info["t0"]
+            end_time = start_time + pulse_info["duration"]
+
+            pulses_by_port_clock[port_clock].extend(
+                [
+                    PulseParameters(
+                        time=round(to_grid_time(start_time) * (1 / constants.SAMPLING_RATE), 9),
+                        is_end=False,
+                        pulse_key=(schedulable_key, index),
+                    ),
+                    PulseParameters(
+                        time=round(to_grid_time(end_time) * (1 / constants.SAMPLING_RATE), 9),
+                        is_end=True,
+                        pulse_key=(schedulable_key, index),
+                    ),
+                ]
+            )
 
     return pulses_by_port_clock
 
@@ -119,34 +133,34 @@ def _construct_pulses_by_interval(
     Constructs a list of `PulseInterval` objects representing time intervals and active pulses.
 
     Given a sorted list of `PulseParameters` objects, this function identifies distinct intervals
-    where pulses are active. Each `PulseInterval` records the start time, end time, and the set of
-    active pulses during that interval. Pulses are added to or removed from the set based on their
+    where pulses are active. Each `PulseInterval` records the start time, end time, and the
+    active pulses during that interval. Pulses are added or removed based on their
     `is_end` attribute, indicating whether the pulse is starting or ending at a given time.
 
 
     Example Input/Output:
     ---------------------
         If the input list has pulses with start and end times as:
-            [PulseParameters(time=1, schedulable_key='A', is_end=False),
-             PulseParameters(time=3, schedulable_key='A', is_end=True),
-             PulseParameters(time=2, schedulable_key='B', is_end=False)]
+            [PulseParameters(time=1, pulse_key='A', is_end=False),
+             PulseParameters(time=3, pulse_key='A', is_end=True),
+             PulseParameters(time=2, pulse_key='B', is_end=False)]
         The output will be:
-            [PulseInterval(start_time=1, end_time=2, active_pulses={'A'}),
-             PulseInterval(start_time=2, end_time=3, active_pulses={'A', 'B'})]
+            [PulseInterval(start_time=1, end_time=2, pulse_keys=['A']),
+             PulseInterval(start_time=2, end_time=3, pulse_keys=['A', 'B'])]
 
     See https://softwareengineering.stackexchange.com/questions/363091 for algo.
 
     """
     pulses_by_interval = []
-    active_pulses = set()
+    active_pulses = []
     last_time = None
 
     for pulse in sorted_pulses:
-        time, key, is_end = pulse.time, pulse.schedulable_key, pulse.is_end
+        time, key, is_end = pulse.time, pulse.pulse_key, pulse.is_end
 
         if last_time is None:
             last_time = time
-            active_pulses.add(key)
+            active_pulses.append(key)
         else:
             if time > last_time:
                 if active_pulses:
@@ -155,72 +169,89 @@ def _construct_pulses_by_interval(
             if is_end:
                 active_pulses.remove(key)
             else:
-                active_pulses.add(key)
+                active_pulses.append(key)
 
     return pulses_by_interval
 
 
 def _stack_pulses_by_interval(
     schedule: Schedule, pulses_by_interval: list[PulseInterval]
-) -> Schedule:
-    old_schedulable_keys = set()
+) -> set[tuple[str, int]]:
+    """Add the stacked pulses to the schedule, and return the keys of the replaced pulses."""
+    old_pulse_keys = set().union(
+        *(interval.pulse_keys for interval in pulses_by_interval if len(interval.pulse_keys) > 1)
+    )
 
     for interval in pulses_by_interval:
-        if not interval.pulse_keys:
+        # Pulses that do not overlap with other pulses are not changed.
+        if old_pulse_keys.isdisjoint(interval.pulse_keys):
             continue
 
         if all(
-            is_square_pulse(schedule.operations[schedule.schedulables[key]["operation_id"]])
-            for key in interval.pulse_keys
+            pulse_info["wf_func"] == "quantify_scheduler.waveforms.square"
+            for _, pulse_info in _pulses_in_interval(interval, schedule)
         ):
-            _stack_square_pulses(interval, schedule, old_schedulable_keys)
+            _stack_square_pulses(interval, schedule)
         else:
-            _stack_arbitrary_pulses(interval, schedule, old_schedulable_keys)
-
-    # Delete old schedulables
-    for key in old_schedulable_keys:
-        del schedule.schedulables[key]
+            _stack_arbitrary_pulses(interval, schedule)
+
+    return old_pulse_keys
+
+
+def _pulses_in_interval(
+    interval: PulseInterval, schedule: Schedule
+) -> Iterator[tuple[Schedulable, dict[str, Any]]]:
+    for key, index in interval.pulse_keys:
+        schedulable = schedule.schedulables[key]
+        operation = schedule.operations[schedulable["operation_id"]]
+        yield schedulable, operation.data["pulse_info"][index]
+
+
+def _remove_pulses(schedule: Schedule, old_pulse_keys: set[tuple[str, int]]) -> None:
+    if not old_pulse_keys:
+        return
+
+    # Delete old pulses, and old schedulables with nothing else than these pulses
+    for key in {key for key, _ in old_pulse_keys}:
+        schedulable = schedule.schedulables[key]
+        operation = deepcopy(schedule.operations[schedulable["operation_id"]])
+        operation.data["pulse_info"] = [
+            pulse_info
+            for index, pulse_info in enumerate(operation.data["pulse_info"])
+            if (key, index) not in old_pulse_keys
+        ]
+        if operation.data["pulse_info"] or operation.valid_acquisition:
+            operation._update()
+            schedule.operations[operation.hash] = operation
+            schedulable["operation_id"] = operation.hash
+        else:
+            del schedule.schedulables[key]
 
     # Delete timing constraints
     for schedulable in schedule.schedulables.values():
         if "timing_constraints" in schedulable:
             del schedulable.data["timing_constraints"]
 
-    return schedule
-
 
 def _stack_arbitrary_pulses(
     interval: PulseInterval,
     schedule: Schedule,
-    old_schedulable_keys: set[str],
 ) -> None:
     num_samples = round((interval.end_time - interval.start_time) * constants.SAMPLING_RATE)
     combined_waveform = np.zeros(num_samples)
     port, clock, pulse_info = None, None, None
 
-    for key in interval.pulse_keys:
-        pulse = schedule.operations[schedule.schedulables[key]["operation_id"]]
-        for pulse_info in pulse.data["pulse_info"]:
-            schedulable = schedule.schedulables[key]
-            old_schedulable_keys.add(key)
-            waveform = helpers.generate_waveform_data(
-                pulse_info, sampling_rate=constants.SAMPLING_RATE
-            )
-            start_idx = round(
-                (interval.start_time - schedulable["abs_time"] - pulse_info["t0"])
-                * constants.SAMPLING_RATE
-            )
-            end_idx = start_idx + num_samples
-
-            if end_idx == len(waveform) - 1:
-                # Including the last sample makes waveform slice longer than combined_waveform;
-                # append zero to combined_waveform to match lengths and prevent shape mismatch.
-                end_idx += 1
-                combined_waveform = np.append(combined_waveform, 0)
+    for schedulable, pulse_info in _pulses_in_interval(interval, schedule):
+        waveform = helpers.generate_waveform_data(pulse_info, sampling_rate=constants.SAMPLING_RATE)
+        start_idx = round(
+            (interval.start_time - schedulable["abs_time"] - pulse_info["t0"])
+            * constants.SAMPLING_RATE
+        )
+        end_idx = start_idx + num_samples
 
-            combined_waveform = np.add(combined_waveform, waveform[start_idx:end_idx])
-            if port is None and clock is None:
-                port, clock = pulse_info.get("port"), pulse_info.get("clock")
+        combined_waveform = np.add(combined_waveform, waveform[start_idx:end_idx])
+        if port is None and clock is None:
+            port, clock = pulse_info.get("port"), pulse_info.get("clock")
 
     if port is None or clock is None:
         raise ValueError(
@@ -239,24 +270,24 @@ def _stack_arbitrary_pulses(
 def _stack_square_pulses(
     interval: PulseInterval,
     schedule: Schedule,
-    old_schedulable_keys: set[str],
 ) -> None:
     combined_pulse = None
 
-    for key in interval.pulse_keys:
-        pulse = schedule.operations[schedule.schedulables[key]["operation_id"]]
-        old_schedulable_keys.add(key)
-        for pulse_info in pulse.data["pulse_info"]:
-            if combined_pulse is None:
-                combined_pulse = deepcopy(pulse)
-                combined_pulse.data["pulse_info"][0]["t0"] = 0
-                combined_pulse.data["pulse_info"][0]["duration"] = round(
+    for _, pulse_info in _pulses_in_interval(interval, schedule):
+        if combined_pulse is None:
+            combined_pulse = SquarePulse(
+                amp=pulse_info["amp"],
+                duration=round(
                     to_grid_time(interval.end_time - interval.start_time)
                     * (1 / constants.SAMPLING_RATE),
                     9,
-                )
-            else:
-                combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
+                ),
+                port=pulse_info["port"],
+                clock=pulse_info["clock"],
+                reference_magnitude=pulse_info.get("reference_magnitude"),
+            )
+        else:
+            combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
     _create_schedulable(schedule, interval.start_time, combined_pulse)
 
 
-- 
2.43.0


From b68734701681e69068e995421c9a07964d3ec394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 18/48] fix: count every repetition of appended acquisitions
 against the number of bins

---
 .../backends/qblox/qblox_acq_index_manager.py               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 089b65f..5f904ea 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -255,7 +255,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -432,7 +433,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
-- 
2.43.0


From 9ca9f31bd4e681dad3c1c8fd74ad6ff8e8967702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 19/48] fix: determine the timing of a loop that is the body of
 a pulse compensation

---
 quantify_scheduler/pulse_compensation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index b553554..f25a520 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -214,7 +214,7 @@ def _determine_compensation_pulse(
 
     operation_with_abs_times = (
         operation
-        if not isinstance(operation, Schedule)
+        if not isinstance(operation, (ScheduleBase, ControlFlowOperation))
         else _determine_absolute_timing(deepcopy(operation), None)
     )
     ports: set[str] = set(max_compensation_amp.keys())
-- 
2.43.0


From 9585050d65515417628e31b65bb4cd8200fd09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 20/48] fix: do not share the NCO frequency of a
 SetClockFrequency between sequencers

---
 quantify_scheduler/backends/qblox/analog.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 421352a..c863af3 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -8,6 +8,7 @@ import logging
 import math
 from abc import ABC, abstractmethod
 from copy import deepcopy
+from dataclasses import replace
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -428,10 +429,10 @@ class AnalogSequencerCompiler(SequencerCompiler):
     def _update_set_clock_frequency_operations(self) -> None:
         for op_strat in self.op_strategies:
             if op_strat.operation_info.name == SetClockFrequency.__name__:
-                op_strat.operation_info.data.update(
-                    {
-                        "interm_freq_old": self.frequency,
-                    }
+                # The operation info is shared by all sequencers with this clock.
+                op_strat._op_info = replace(
+                    op_strat.operation_info,
+                    data={**op_strat.operation_info.data, "interm_freq_old": self.frequency},
                 )
 
     @staticmethod
-- 
2.43.0


From ef703b026434aed5b59b020aa1f99f545b30df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 21/48] fix: a downconverted output follows a SetClockFrequency
 in the right direction

---
 quantify_scheduler/backends/qblox/analog.py         | 13 ++++++++++++-
 .../backends/qblox/operation_handling/virtual.py    |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index c863af3..8491e57 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -432,9 +432,20 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 # The operation info is shared by all sequencers with this clock.
                 op_strat._op_info = replace(
                     op_strat.operation_info,
-                    data={**op_strat.operation_info.data, "interm_freq_old": self.frequency},
+                    data={
+                        **op_strat.operation_info.data,
+                        "interm_freq_old": self.frequency,
+                        "downconverted": self._is_clock_downconverted,
+                    },
                 )
 
+    @property
+    def _is_clock_downconverted(self) -> bool:
+        """Whether the output frequency is the downconverter frequency minus the clock frequency."""
+        return bool(self.downconverter_freq) and (
+            isinstance(self.parent, RFModuleCompiler) or self.associated_ext_lo is not None
+        )
+
     @staticmethod
     def _assert_enough_time_between_freq_phase_updates(
         ordered_op_strategies: list[IOperationStrategy],
diff --git a/quantify_scheduler/backends/qblox/operation_handling/virtual.py b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
index 8a08a02..40f5f92 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/virtual.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
@@ -145,8 +145,10 @@ class NcoSetClockFrequencyStrategy(IdleStrategy):
                 f"the hardware config."
             )
 
+        # A downconverter mirrors the clock frequency.
+        sign = -1 if self.operation_info.data.get("downconverted", False) else 1
         interm_freq_new = (
-            (interm_freq_old + clock_freq_new - clock_freq_old)
+            (interm_freq_old + sign * (clock_freq_new - clock_freq_old))
             if (clock_freq_new is not None)
             else interm_freq_old
         )
-- 
2.43.0


From 5b0093b31a72c194764ef4e18ecdc90c0521c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 22/48] fix: do not lose the LO frequency given for another
 port-clock of the same RF output

---
 quantify_scheduler/backends/types/qblox.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 7bced1e..ca13e66 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass
@@ -568,10 +569,19 @@ class RFModuleSettings(AnalogModuleSettings):
             for portclock, path in mapping.portclock_to_path.items():
                 pc_freqs = modulation_frequencies.get(portclock)
                 lo_freq = pc_freqs.lo_freq if pc_freqs is not None else None
+                if lo_freq is None or math.isnan(lo_freq):
+                    continue
                 if (
                     lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name)
                 ) is not None:
-                    rf_settings[lo_freq_setting] = lo_freq
+                    # All port-clock combinations of an output share its LO.
+                    previous_lo_freq = rf_settings.setdefault(lo_freq_setting, lo_freq)
+                    if not math.isclose(lo_freq, previous_lo_freq):
+                        raise ValueError(
+                            f"Attempting to set '{lo_freq_setting}' of {path} to frequency "
+                            f"'{lo_freq:e}' for '{portclock}', while it has previously already "
+                            f"been set to '{previous_lo_freq:e}'!"
+                        )
 
         combined_settings = {**rf_settings, **kwargs}
         return cls(**combined_settings)
-- 
2.43.0


From e61394f12a2e24e98c40834ce8b4b94cfdb75546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 23/48] fix: use the LO frequency given for any port-clock of
 an external LO

---
 quantify_scheduler/backends/qblox_backend.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index d5f19b0..f6a883e 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1039,7 +1039,15 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                             lo_config = lo_configs[lo_name]
                             if lo_config.hardware_description.instrument_name is None:
                                 lo_config.hardware_description.instrument_name = lo_name
-                                lo_config.frequency = frequencies.lo_freq
+                            if frequencies.lo_freq is None:
+                                continue
+                            if lo_config.frequency not in (None, frequencies.lo_freq):
+                                raise ValueError(
+                                    f"Attempting to set LO {lo_name} to frequency "
+                                    f"{frequencies.lo_freq} for '{portclock}', while it has "
+                                    f"previously already been set to {lo_config.frequency}!"
+                                )
+                            lo_config.frequency = frequencies.lo_freq
 
         # Extract hardware options
         clusters_hardware_options: dict[str, dict[str, dict[str, Any]]] = defaultdict(
-- 
2.43.0


From a65f50be2048e8e599b9e8c90be60dd32fb122bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 24/48] fix: different operations never have the same hash
 because of hash(-1) == hash(-2)

---
 quantify_scheduler/helpers/collections.py      | 8 +++++++-
 quantify_scheduler/operations/pulse_library.py | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 9e48ca7..8105c12 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from collections import UserDict
 from collections.abc import Iterable, MutableMapping
+from numbers import Number
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -38,7 +39,8 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
 
     if isinstance(obj, np.ndarray):
         # numpy arrays behave funny for hashing
-        new_hash.update(obj)  # type: ignore
+        new_hash.update(repr((obj.dtype, obj.shape)).encode())
+        new_hash.update(np.ascontiguousarray(obj))  # type: ignore
         val = new_hash.intdigest()
         new_hash.reset()
         return val
@@ -47,6 +49,10 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
+    if isinstance(obj, (Number, np.bool_)):
+        # The hash of a number is not unique, for example hash(-1) == hash(-2).
+        return hash((obj, str(complex(obj) + 0)))
+
     return hash(obj)
 
 
diff --git a/quantify_scheduler/operations/pulse_library.py b/quantify_scheduler/operations/pulse_library.py
index 747bbd2..fc207f6 100644
--- a/quantify_scheduler/operations/pulse_library.py
+++ b/quantify_scheduler/operations/pulse_library.py
@@ -10,6 +10,7 @@ from typing import Any, Literal
 import numpy as np
 from qcodes import InstrumentChannel, validators
 
+from quantify_scheduler.helpers.collections import make_hash
 from quantify_scheduler.helpers.importers import export_python_object_to_path_string
 from quantify_scheduler.operations.operation import Operation
 from quantify_scheduler.resources import BasebandClockResource, DigitalClockResource
@@ -34,7 +35,7 @@ class ReferenceMagnitude:
         return cls(value, unit)
 
     def __hash__(self) -> int:
-        return hash((self.value, self.unit))
+        return make_hash((self.value, self.unit))
 
     def __setstate__(self, state: dict[str, Any]) -> dict:
         self.value = state["value"]
-- 
2.43.0


From 3f466d1f7ffb7de6e269cbb207f235977fe90751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 25/48] fix: serialise any numpy scalar and the data type of
 arrays

---
 quantify_scheduler/json_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index fa85b92..6974e7f 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -218,7 +218,7 @@ class SchedulerJSONDecoder(json.JSONDecoder):
 
             if "mode" in obj and obj["mode"] == "__init__":
                 if class_type == np.ndarray:
-                    return np.array(obj["data"])
+                    return np.array(obj["data"], dtype=obj.get("dtype"))
                 elif issubclass(class_type, Instrument):
                     return class_type(**obj["data"])
                 else:
@@ -398,7 +398,11 @@ class SchedulerJSONEncoder(json.JSONEncoder):
                     "deserialization_type": type(o).__name__,
                     "mode": "__init__",
                     "data": list(o),
+                    "dtype": str(o.dtype),
                 }
+            elif isinstance(o, np.generic):
+                # Any other numpy scalar
+                return o.item()
             elif o in DEFAULT_TYPES:
                 assert isinstance(o, type)
                 return {"deserialization_type": o.__name__, "mode": "type"}
-- 
2.43.0


From dee74dc378a1a50fcfabc8b42cb2438646d0d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 26/48] fix: InlineQ1ASM operations can be serialised

---
 .../backends/qblox/operations/inline_q1asm.py             | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
index 96d2e02..160a007 100644
--- a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
+++ b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
@@ -132,6 +132,14 @@ class InlineQ1ASM(Operation):
             setattr(result, k, deepcopy(v, memo))
         return result
 
+    def __getstate__(self) -> dict[str, object]:
+        attributes = {k: v for k, v in self.__dict__.items() if k != "data"}
+        return {**super().__getstate__(), "attributes": attributes}
+
+    def __setstate__(self, state: dict[str, dict]) -> None:
+        self.__dict__.update(state["attributes"])
+        super().__setstate__(state)
+
     def __hash__(self) -> int:
         return make_hash(
             [
-- 
2.43.0


From 85052355a2a8844a89f6ef006caace6f84b2c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 27/48] fix: numpy numbers can be written to YAML

A parameter whose value is a numpy scalar could not be represented; after the
failure nothing else could be written with the shared emitter either.
---
 quantify_scheduler/yaml_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/yaml_utils.py b/quantify_scheduler/yaml_utils.py
index 55b8f96..648db5b 100644
--- a/quantify_scheduler/yaml_utils.py
+++ b/quantify_scheduler/yaml_utils.py
@@ -66,6 +66,8 @@ yaml = ry.YAML(typ="rt")
 
 # Support Enum and its subclasses
 yaml.representer.add_multi_representer(Enum, represent_enum)
+# Support NumPy scalars, such as the values of parameters that were calculated
+yaml.representer.add_multi_representer(np.generic, lambda r, x: r.represent_data(x.item()))
 # Support NumPy arrays
 yaml.representer.add_representer(np.ndarray, represent_ndarray)
 yaml.constructor.add_constructor("!numpy.ndarray", construct_ndarray)
-- 
2.43.0


From b5dcf3d3bd813bd3c1c55ac4d3329c6659a87754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 28/48] fix: merging Rz gates keeps shared operations, timing
 and overrides

---
 quantify_scheduler/compilation.py | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 844e026..8732ddb 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import logging
+from copy import deepcopy
 from typing import TYPE_CHECKING, Literal, overload
 
 import networkx as nx
@@ -434,18 +435,28 @@ def _merge_rz_gates(
             )
 
         last_op = None
+        last_sched = None
+        previous_key = None
         # Copy list so we can modify it while iterating
         for inner_sched_key in list(op.schedulables):
             inner_sched = op.schedulables[inner_sched_key]
             inner_op = op.operations[inner_sched["operation_id"]]
+            adjacent_key, previous_key = previous_key, inner_sched_key
 
             # Merge Rz gates if possible
             if (
                 isinstance(inner_op, Rz)
                 and isinstance(last_op, Rz)
                 and inner_op.qubit == last_op.qubit
+                and inner_op.data["gate_info"].get("device_overrides")
+                == last_op.data["gate_info"].get("device_overrides")
+                and _are_simultaneous(op, adjacent_key, inner_sched_key, config)
             ):
+                # Other schedulables can refer to the same operation: merge into a copy.
+                last_op = deepcopy(last_op)
                 last_op.theta += inner_op.theta
+                op.operations[last_op.hash] = last_op
+                last_sched["operation_id"] = last_op.hash
                 noop = IdlePulse(0)
                 noop_id = noop.hash
                 op.operations[noop_id] = noop
@@ -454,6 +465,12 @@ def _merge_rz_gates(
 
             # Record last
             last_op = inner_op
+            last_sched = inner_sched
+
+        used_operation_ids = {sched["operation_id"] for sched in op.schedulables.values()}
+        for operation_id in list(op.operations):
+            if operation_id not in used_operation_ids:
+                del op.operations[operation_id]
 
         return op
     elif isinstance(op, ControlFlowOperation):
@@ -466,6 +483,27 @@ def _merge_rz_gates(
         return op
 
 
+def _are_simultaneous(
+    schedule: Schedule,
+    first_key: str,
+    second_key: str,
+    config: CompilationConfig | None,
+) -> bool:
+    """Whether adjacent schedulables without duration have the default relative timing."""
+    strategy = _determine_scheduling_strategy(config)
+    reference, schedulable = first_key, schedule.schedulables[second_key]
+    if strategy == SchedulingStrategy.ALAP:
+        reference, schedulable = second_key, schedule.schedulables[first_key]
+
+    return all(
+        timing_constraint.ref_schedulable in (None, reference)
+        and timing_constraint.ref_pt in (None, _determine_default_ref_pt(strategy))
+        and timing_constraint.ref_pt_new in (None, _determine_default_ref_pt_new(strategy))
+        and not timing_constraint.rel_time
+        for timing_constraint in schedulable["timing_constraints"]
+    )
+
+
 def validate_config(config: dict, scheme_fn: str) -> bool:
     """
     Validate a configuration using a schema.
-- 
2.43.0


From 575349b279211ab0190ca2b3a3ca0a0f00e0c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 29/48] fix: override the acquisition delay of a measurement
 that does not apply it

---
 quantify_scheduler/backends/circuit_to_device.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index db179f1..ec62f50 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -748,7 +748,9 @@ def _get_device_repr_from_cfg(
         isinstance(operation, Measure)
         and not operation.data["gate_info"]["apply_acquisition_delay"]
     ):
-        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
+        factory_kwargs["next_operation_delay"] = -device_overrides.get(
+            "acq_delay", factory_kwargs["acq_delay"]
+        )
 
     # retrieve keyword args for parametrized operations from the gate info
     if operation_cfg.gate_info_factory_kwargs is not None:
@@ -795,7 +797,9 @@ def _get_device_repr_from_cfg_multiplexed(
         isinstance(operation, Measure)
         and not operation.data["gate_info"]["apply_acquisition_delay"]
     ):
-        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
+        factory_kwargs["next_operation_delay"] = -device_overrides.get(
+            "acq_delay", factory_kwargs["acq_delay"]
+        )
 
     # Add operation defined custom device overrides.
     for key, value in device_overrides.items():
-- 
2.43.0


From cffca5f035924fdee2fcc0a1d41b57235fa53916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 30/48] fix: the next operation also waits for a measurement at
 a given frequency

---
 quantify_scheduler/operations/measurement_factories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 6198d44..ebabe44 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -377,7 +377,9 @@ def _dispersive_measurement(  # noqa: PLR0915
         raise ValueError(f'Acquisition protocol "{acq_protocol}" is not supported.')
 
     if freq is not None:
-        subschedule_with_freq = Schedule("dispersive_measurement_with_freq")
+        # The delay counts from the end of the complete measurement.
+        subschedule_with_freq = Schedule("dispersive_measurement_with_freq", data=schedule_data)
+        subschedule.data.pop("next_operation_delay", None)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=freq))
         subschedule_with_freq.add(subschedule)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=None))
-- 
2.43.0


From 3886285f31b453e96d961e98e09f96c1019aef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 31/48] fix: acquisition channel of a LongTimeTrace measurement

---
 quantify_scheduler/operations/measurement_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index ebabe44..c901420 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -344,7 +344,7 @@ def _dispersive_measurement(  # noqa: PLR0915
             port=port,
             clock=clock,
             duration=acq_duration,
-            acq_channel=0,
+            acq_channel=acq_channel,
             coords=coords,
             acq_index=acq_index,
             bin_mode=bin_mode,
-- 
2.43.0


From 16b3c3e7e718a3a27c2f35d07ca6ad5057d369e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 32/48] fix: add the clocks of the operations inside a
 PulseCompensation

---
 quantify_scheduler/backends/circuit_to_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index ec62f50..21113fe 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -245,7 +245,7 @@ def _extract_clock_freqs(
                         f"{freq} Hz and {all_clock_freqs[clock]} Hz."
                     )
                 all_clock_freqs[clock] = freq
-    elif isinstance(operation, ControlFlowOperation):
+    elif isinstance(operation, (ControlFlowOperation, PulseCompensation)):
         _extract_clock_freqs(operation=operation.body, all_clock_freqs=all_clock_freqs)
 
 
-- 
2.43.0


From 1117fed7d4da75c5f1284ebe8ddb9a78074bad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 33/48] fix: retrieve a channel acquired on several sequencers
 with different indices

---
 .../instrument_coordinator/utility.py         | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index fb29b13..47906e7 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -154,18 +154,13 @@ def check_already_existing_acquisition(
 
         # We need to check if the values are `math.nan`, because if they are,
         # that means there is no value at that position (xarray standard).
-        def mask_func(x: float, y: float) -> int:
-            return 0 if np.isnan(x) or np.isnan(y) else 1
-
-        if len(common_0) and len(common_1):
-            conflict_mask = xarray.apply_ufunc(mask_func, common_0, common_1, vectorize=True)
-            for conflict in conflict_mask:
-                if conflict.values != [1]:
-                    continue
-                conflicting_coords = [("acq_channel", acq_channel)]
-                conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
-                coords_str = [f"{dim}={coord}" for dim, coord in conflicting_coords]
-                conflicting_indices_str.append("; ".join(coords_str))
+        conflict_mask = common_0.notnull() & common_1.notnull()
+        for position in np.argwhere(conflict_mask.values):
+            conflict = conflict_mask[tuple(position)]
+            conflicting_coords = [("acq_channel", acq_channel)]
+            conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
+            coords_str = [f"{dim}={coord}" for dim, coord in conflicting_coords]
+            conflicting_indices_str.append("; ".join(coords_str))
 
     if conflicting_indices_str:
         conflicting_indices_str = "\n".join(conflicting_indices_str)
-- 
2.43.0


From 51b973894985880ac8e3067207811d227af35218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 34/48] fix: rounding of the TriggerCount sum

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2170b8a..7746208 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2002,7 +2002,7 @@ class _AcquisitionManagerBase(ABC):
                 # that QTM modules also return a "avg_cnt" key, that should not be used!
                 counts = bin_data["count"] if "count" in bin_data else bin_data["avg_cnt"]
                 return (
-                    self._repetitions * int(counts[qblox_acq_bin])
+                    round(self._repetitions * counts[qblox_acq_bin])
                     if (
                         sum_multiply_repetitions
                         and self._acq_channels_data[acq_channel].bin_mode == BinMode.SUM
-- 
2.43.0


From c7e4fca9e5ada732a0057626c14e721c59e5edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 35/48] fix: coordinates of a TriggerCount distribution with
 several counts

---
 quantify_scheduler/instrument_coordinator/utility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index 47906e7..841bf9b 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -228,7 +228,9 @@ def add_acquisition_coords_nonbinned(
     """
     data_array_coords = {}
 
+    len_acq_indices = len(data_array[acq_index_dim_name].values)
+
     for key, value in coords.items():
-        data_array_coords[key] = (acq_index_dim_name, [value])
+        data_array_coords[key] = (acq_index_dim_name, [value] * len_acq_indices)
 
     data_array.coords.update(data_array_coords)
-- 
2.43.0


From 7413050dd433d2a57c408925bf384ed0b158b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 36/48] fix: order of the timetag traces of several
 acquisitions and repetitions

---
 .../components/qblox.py                       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 7746208..ea02136 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2636,16 +2636,29 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
 
         qblox_acq_name = self._qblox_acq_index_to_qblox_acq_name(qblox_acq_index)
         scope_data = self.instrument.io_channels[seq_idx].get_scope_data()
-        timetag_traces = self._split_timetag_trace_data_per_window(
-            timetags=hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
-                "timedelta"
-            ],
-            scope_data=scope_data,
+        timedeltas = hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
+            "timedelta"
+        ]
+        # The windows are in the order in which they were measured, one repetition after the
+        # other, whereas the bins of an acquisition are consecutive for all repetitions.
+        measured_bins = [
+            index_bin.bin + repetition * index_bin.stride
+            for repetition in range(self._repetitions)
+            for index_bin in sorted(seq_channel_hardware_mapping.values(), key=lambda b: b.bin)
+        ]
+        timetag_traces = dict(
+            zip(
+                measured_bins,
+                self._split_timetag_trace_data_per_window(
+                    timetags=[timedeltas[qblox_bin] for qblox_bin in measured_bins],
+                    scope_data=scope_data,
+                ),
+            )
         )
 
         # Turn the inhomogeneous 2D array into a rectangular matrix compatible with
         # xarray. Pad with NaN to make it rectangular.
-        max_timetag_traces = max(len(t) for t in timetag_traces)
+        max_timetag_traces = max(len(t) for t in timetag_traces.values())
         rect_array = np.empty(
             [
                 self._repetitions,
-- 
2.43.0


From 2410c95f974a4356e510e434eceecbbca6dd23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 37/48] fix: waits just above a multiple of the maximum wait
 time

---
 quantify_scheduler/backends/qblox/qasm_program.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 1c0ef6f..0bb0023 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -231,8 +231,13 @@ class QASMProgram:
             )
 
         comment = comment if comment else f"auto generated wait ({wait_time} ns)"
-        if wait_time > constants.IMMEDIATE_MAX_WAIT_TIME:
-            repetitions = wait_time // constants.IMMEDIATE_MAX_WAIT_TIME
+        repetitions, time_left = divmod(int(wait_time), constants.IMMEDIATE_MAX_WAIT_TIME)
+        if repetitions > 0 and 0 < time_left < constants.MIN_TIME_BETWEEN_OPERATIONS:
+            # A wait instruction cannot be this short, but the one before it can be longer.
+            repetitions -= 1
+            time_left += constants.IMMEDIATE_MAX_WAIT_TIME
+
+        if repetitions > 0:
 
             # number of instructions where it becomes worthwhile to use a loop.
             instr_number_using_loop = 4
@@ -257,9 +262,6 @@ class QASMProgram:
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
                     self.conditional_manager.num_real_time_instructions += 1
-            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
-        else:
-            time_left = int(wait_time)
 
         if time_left > 0:
             self.emit(
-- 
2.43.0


From cfb55c6dee58b7dddf9a61b1f8e96c0b1f861e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 38/48] fix: automatic RF switch of a pulse at the start of the
 schedule

The switch was added after the pulses, but a parameter operation at the same time as a pulse
can only be executed before it, so that schedules starting with a microwave pulse were rejected.
---
 quantify_scheduler/backends/qblox/auto_rf_switch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 07b3047..690562a 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -499,5 +499,9 @@ def _insert_rf_switch_operation(
     schedulable = Schedulable(name=schedulable_key, operation_id=rf_switch_op.hash)
     schedulable.data["abs_time"] = rf_switch_start
 
-    # Insert the schedulable into the schedule
+    # Insert the schedulable into the schedule, before the pulses: at the same time, a
+    # parameter operation can only be executed before a pulse.
+    schedulables = dict(schedule.schedulables)
+    schedule.schedulables.clear()
     schedule.schedulables[schedulable_key] = schedulable
+    schedule.schedulables.update(schedulables)
-- 
2.43.0


From c97470b9fdb8a315c924b3fc4ba6a80a6e334bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 39/48] fix: apply software distortion corrections only once to
 every pulse

Operations were changed in place, so that a pulse used at several places (for example in a loop
and outside it) was corrected several times. The corrected operation also lost its acquisitions
and had the duration of its first pulse only.
---
 quantify_scheduler/backends/corrections.py | 42 ++++++++++++++++++----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index 533b6cd..1328ddf 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 import logging
 import warnings
+from copy import copy
 from typing import TYPE_CHECKING, Any, overload
 
 import numpy as np
@@ -230,22 +231,41 @@ def apply_software_distortion_corrections(
         when clipping values are supplied but not two values exactly, min and max.
 
     """
+    return _apply_software_distortion_corrections(operation, distortion_corrections, set())
+
+
+def _apply_software_distortion_corrections(
+    operation: Operation | Schedule, distortion_corrections: dict, corrected_ids: set[int]
+) -> Operation | Schedule | None:
+    """
+    Apply distortion corrections to operations in the schedule.
+
+    The same schedule (or control flow operation) can be used more than once: the ids of
+    those that are corrected already are in ``corrected_ids``.
+    """
+    if isinstance(operation, (ScheduleBase, ControlFlowOperation)):
+        if id(operation) in corrected_ids:
+            return None
+        corrected_ids.add(id(operation))
+
     if isinstance(operation, ScheduleBase):
         for inner_operation_id in operation.operations:
-            replacing_operation = apply_software_distortion_corrections(
-                operation.operations[inner_operation_id], distortion_corrections
+            replacing_operation = _apply_software_distortion_corrections(
+                operation.operations[inner_operation_id], distortion_corrections, corrected_ids
             )
             if replacing_operation is not None:
                 operation.operations[inner_operation_id] = replacing_operation
         return None
     elif isinstance(operation, ControlFlowOperation):
-        replacing_operation = apply_software_distortion_corrections(
-            operation.body, distortion_corrections
+        replacing_operation = _apply_software_distortion_corrections(
+            operation.body, distortion_corrections, corrected_ids
         )
         if replacing_operation is not None:
             operation.body = replacing_operation
         return None
     else:
+        # The operation is not changed itself, because it can be used elsewhere as well.
+        pulse_info = list(operation.data["pulse_info"])
         substitute_operation = None
         for pulse_info_idx, pulse_data in enumerate(operation.data["pulse_info"]):
             portclock_key = f"{pulse_data['port']}-{pulse_data['clock']}"
@@ -286,14 +306,24 @@ def apply_software_distortion_corrections(
                     ),
                 )
 
-                operation.data["pulse_info"][pulse_info_idx] = corrected_pulse.data["pulse_info"][0]
+                pulse_info[pulse_info_idx] = corrected_pulse.data["pulse_info"][0]
 
                 if pulse_info_idx == 0:
                     substitute_operation = corrected_pulse
+                elif substitute_operation is None:
+                    substitute_operation = copy(operation)
 
         # Convert to operation-type of first entry in pulse_info,
         # required as first entry in pulse_info is used to generate signature in __str__
         if substitute_operation is not None:
-            substitute_operation.data["pulse_info"] = operation.data["pulse_info"]
+            substitute_operation.data.update(
+                {
+                    key: value
+                    for key, value in operation.data.items()
+                    if key not in ("name", "pulse_info")
+                }
+            )
+            substitute_operation.data["pulse_info"] = pulse_info
+            substitute_operation._update()
             return substitute_operation
         return None
-- 
2.43.0


From 40d967928014bd4bd5bbeb150f37b649e7b36a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:14 +0000
Subject: [PATCH 40/48] fix: imaginary part of sudden net-zero pulses with a
 complex amplitude

---
 quantify_scheduler/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 5249548..526c275 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -355,7 +355,7 @@ def sudden_net_zero(
             "Specified pulse part durations add up to longer than the given time array."
         )
 
-    waveform = np.zeros(len(t))
+    waveform = np.zeros(len(t), dtype=complex if isinstance(amp_A, complex) else float)
     waveform[:single_arm_samples] = amp_A
     waveform[single_arm_samples - 1] = amp_A * amp_B
     waveform[single_arm_samples + mid_samples : 2 * single_arm_samples + mid_samples] = (
-- 
2.43.0


From fc662eace4296bc2cb947149a05e5fe1cf9eebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:14 +0000
Subject: [PATCH 41/48] fix: crosstalk compensation of all pulses, of
 port-clocks without crosstalk and of operations used several times

---
 .../backends/qblox/crosstalk_compensation.py  | 186 +++++++++++-------
 1 file changed, 110 insertions(+), 76 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 472887e..d8a76bd 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -4,15 +4,18 @@
 
 from __future__ import annotations
 
-from copy import deepcopy
-from typing import TYPE_CHECKING
+import re
+from copy import copy, deepcopy
+from typing import TYPE_CHECKING, Any
 
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
-    from quantify_scheduler.operations import Operation
 
 import numpy as np
 
+from quantify_scheduler.operations import Operation
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 
@@ -49,18 +52,45 @@ def crosstalk_compensation(
         hardware_options.crosstalk, port_clock_list
     )
 
-    for schedulable in list(schedule.schedulables.values()):
-        operation = schedule.operations[schedulable["operation_id"]]
+    return _compensate_schedule(schedule, port_clock_list, compensation_matrix)
+
 
-        if isinstance(operation, Schedule):
-            # Recursively apply compensation to nested schedules
-            schedule.operations[schedulable["operation_id"]] = crosstalk_compensation(
-                operation, config
+def _compensate_schedule(
+    schedule: Schedule, port_clock_list: list[str], compensation_matrix: np.ndarray
+) -> Schedule:
+    # Several schedulables can refer to the same operation, which is compensated only once.
+    compensated_ids: dict[str, tuple[str, dict[int, str]]] = {}
+    compensated_operations: dict[str, Operation | Schedule] = {}
+    compensation_operations: dict[str, Operation | Schedule] = {}
+    compensation_schedulables: dict[str, Schedulable] = {}
+
+    for schedulable_key, schedulable in schedule.schedulables.items():
+        operation_id = schedulable["operation_id"]
+
+        if operation_id not in compensated_ids:
+            operation, compensations = _compensate_operation(
+                schedule.operations[operation_id], port_clock_list, compensation_matrix
             )
-        elif is_pulse(operation):
-            _apply_compensation_to_operation(
-                schedule, operation, schedulable, port_clock_list, compensation_matrix
+            compensated_id = operation.hash if isinstance(operation, Operation) else operation_id
+            compensated_operations[compensated_id] = operation
+            compensation_operations.update({op.hash: op for op in compensations.values()})
+            compensated_ids[operation_id] = (
+                compensated_id,
+                {index: op.hash for index, op in compensations.items()},
+            )
+
+        compensated_id, compensation_ids = compensated_ids[operation_id]
+        for index, compensation_id in compensation_ids.items():
+            compensation_schedulable = deepcopy(schedulable)
+            compensation_schedulable["operation_id"] = compensation_id
+            compensation_schedulables[f"{schedulable_key}_compensation_{index}"] = (
+                compensation_schedulable
             )
+        schedulable["operation_id"] = compensated_id
+
+    schedule.operations.clear()
+    schedule.operations.update(compensated_operations | compensation_operations)
+    schedule.schedulables.update(compensation_schedulables)
 
     return schedule
 
@@ -108,71 +138,75 @@ def is_pulse(operation: Operation) -> bool:
         True if the operation is a pulse, False otherwise.
 
     """
-    return (
-        len(operation.data["pulse_info"]) > 0
-        and operation.data["pulse_info"][0]["wf_func"] is not None
-    )
-
-
-def _apply_compensation_to_operation(
-    schedule: Schedule,
-    operation: Operation,
-    schedulable: Schedulable,
-    port_clock_list: list[str],
-    compensation_matrix: np.ndarray,
-) -> None:
-    port_clock = (
-        f"{operation.data['pulse_info'][0]['port']}-{operation.data['pulse_info'][0]['clock']}"
+    return not operation.has_voltage_offset and any(
+        pulse_info.get("wf_func") is not None for pulse_info in operation.data["pulse_info"]
     )
-    port_clock_index = port_clock_list.index(port_clock)
-    compensation_row = compensation_matrix[port_clock_index]
-
-    # Add compensation pulses to port clocks that are affected by crosstalk
-    for i, compensation_value in enumerate(compensation_row):
-        if compensation_value != 0 and i != port_clock_index:
-            _add_compensation_operation(
-                schedule,
-                operation,
-                schedulable,
-                port_clock_list[i],
-                compensation_value,
-                i,
-            )
-
-    # Adjust all params that have amp in them
-    for key in operation.data["pulse_info"][0]:
-        if "amp" in key:
-            operation.data["pulse_info"][0][key] *= compensation_row[port_clock_index]
 
 
-def _add_compensation_operation(
-    schedule: Schedule,
-    original_operation: Operation,
-    original_schedulable: Schedulable,
-    target_port_clock: str,
-    compensation_value: float,
-    index: int,
-) -> None:
-    compensation_op = deepcopy(original_operation)
-    target_port, target_clock = target_port_clock.split("-")
-
-    # amp of compensation operation is product of the original amplitude and compensation value.
-    compensation_op.data["pulse_info"][0].update(
-        {
-            "port": target_port,
-            "clock": target_clock,
+def _compensate_operation(
+    operation: Operation | Schedule, port_clock_list: list[str], compensation_matrix: np.ndarray
+) -> tuple[Operation | Schedule, dict[int, Operation]]:
+    """
+    Return the compensated operation, and the operations (by index of the port-clock) that
+    need to be added on other port-clocks. The operation passed in is not modified, because
+    it can also be part of another schedule.
+    """
+    if isinstance(operation, Schedule):
+        return _compensate_schedule(deepcopy(operation), port_clock_list, compensation_matrix), {}
+
+    if isinstance(operation, ControlFlowOperation):
+        body, compensations = _compensate_operation(
+            operation.body, port_clock_list, compensation_matrix
+        )
+        for compensation in compensations.values():
+            body.add_pulse(compensation)
+        operation = copy(operation)
+        operation.data = {
+            **operation.data,
+            "control_flow_info": {**operation.data["control_flow_info"], "body": body},
         }
-    )
-    for key in compensation_op.data["pulse_info"][0]:
-        if "amp" in key:
-            compensation_op.data["pulse_info"][0][key] = (
-                original_operation.data["pulse_info"][0][key] * compensation_value
-            )
-
-    schedule.operations[compensation_op.hash] = compensation_op
-
-    compensation_schedulable = deepcopy(original_schedulable)
-    compensation_schedulable["operation_id"] = compensation_op.hash
-    schedule.schedulables[f"{original_operation.hash}_compensation_{index}"] = (
-        compensation_schedulable
-    )
+        return operation, {}
+
+    if not is_pulse(operation):
+        return operation, {}
+
+    compensations: dict[int, Operation] = {}
+    compensated_operation = deepcopy(operation)
+    for pulse_info in compensated_operation.data["pulse_info"]:
+        port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
+        if pulse_info.get("wf_func") is None or port_clock not in port_clock_list:
+            continue
+        port_clock_index = port_clock_list.index(port_clock)
+        compensation_row = compensation_matrix[port_clock_index]
+
+        # Add compensation pulses to port clocks that are affected by crosstalk
+        for i, compensation_value in enumerate(compensation_row):
+            if compensation_value != 0 and i != port_clock_index:
+                compensation_info = deepcopy(pulse_info)
+                port, clock = port_clock_list[i].rsplit("-", 1)
+                compensation_info.update({"port": port, "clock": clock})
+                _scale_pulse(compensation_info, compensation_value)
+                if i not in compensations:
+                    compensations[i] = Operation(name=f"{operation.name} crosstalk compensation")
+                compensations[i].data["pulse_info"].append(compensation_info)
+                compensations[i]._update()
+
+        _scale_pulse(pulse_info, compensation_row[port_clock_index])
+
+    compensated_operation._update()
+    return compensated_operation, compensations
+
+
+def _scale_pulse(pulse_info: dict[str, Any], value: complex) -> None:
+    """Multiply the waveform of the pulse by the value."""
+    for key in pulse_info:
+        if key == "samples":
+            pulse_info[key] = np.asarray(pulse_info[key]) * value
+        elif (
+            # All params that have amp in them, except for those (of the DRAG and the sudden
+            # net-zero pulse) that are relative to another one.
+            (re.search("(^|_)amp", key) and key not in ("D_amp", "amp_B"))
+            # Offset of a ramp
+            or (key == "offset" and pulse_info[key] is not None)
+        ):
+            pulse_info[key] *= value
-- 
2.43.0


From 7a78f88e6f018a8011f38c39c8b2cc3ba340834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:43 +0000
Subject: [PATCH 42/48] fix: play Zurich Instruments pulses at their sample
 within the clock cycle

---
 quantify_scheduler/backends/zhinst_backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/zhinst_backend.py b/quantify_scheduler/backends/zhinst_backend.py
index 5632fab..5025e24 100644
--- a/quantify_scheduler/backends/zhinst_backend.py
+++ b/quantify_scheduler/backends/zhinst_backend.py
@@ -2367,12 +2367,15 @@ def construct_waveform_table(
                 waveform_info, sampling_rate=instrument_info.sample_rate
             )
 
-            # Apply corrections
-            # Apply corrections
+            # Apply corrections. The instruction is issued at the start of a clock cycle,
+            # the waveform starts at the sample of the pulse within that cycle.
             _, _, corr_wf = apply_waveform_corrections(
                 output=output,
                 waveform=waveform,
-                start_and_duration_in_seconds=(0, row["duration"]),
+                start_and_duration_in_seconds=(
+                    row["sample_start"] / instrument_info.sample_rate,
+                    row["duration"],
+                ),
                 instrument_info=instrument_info,
                 is_pulse=not row.is_acquisition,
             )
-- 
2.43.0


From 181719a6053ebe0cd0091b22a06be43384562356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:43 +0000
Subject: [PATCH 43/48] fix: index the measurements of the Zurich Instruments
 timing table by position

---
 quantify_scheduler/backends/zhinst_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/zhinst_backend.py b/quantify_scheduler/backends/zhinst_backend.py
index 5025e24..2274e2a 100644
--- a/quantify_scheduler/backends/zhinst_backend.py
+++ b/quantify_scheduler/backends/zhinst_backend.py
@@ -385,7 +385,9 @@ def _apply_measurement_fixpoint_correction(
     # FIXME: there is an edge-case in the slicing of the operations when
     # the pulse of the measurement is applied after triggering the acquisition.
     # this should be included explicitly in the indices to slice (acquisitions.index)
-    for idx, sample_start in zip(acquisitions.index, acquisitions.sample_start):
+    # The table is sorted by time, hence its labels are not the positions of the rows.
+    positions = np.flatnonzero(timing_table.is_acquisition)
+    for idx, sample_start in zip(positions, acquisitions.sample_start):
         effective_start_sample = round(sample_start + cumulative_sample_corrections)
         time_corr, sample_corr = _determine_measurement_fixpoint_correction(
             measurement_start_sample=effective_start_sample,
-- 
2.43.0


From 728c784395e89dabafe7dd99bddeafe4da1b50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:43 +0000
Subject: [PATCH 44/48] fix: reject overlapping pulses on Zurich Instruments
 channels

---
 quantify_scheduler/backends/zhinst_backend.py | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/quantify_scheduler/backends/zhinst_backend.py b/quantify_scheduler/backends/zhinst_backend.py
index 2274e2a..619cb1b 100644
--- a/quantify_scheduler/backends/zhinst_backend.py
+++ b/quantify_scheduler/backends/zhinst_backend.py
@@ -141,23 +141,26 @@ def ensure_no_operations_overlap(timing_table: pandas.DataFrame) -> None:
         if output_ch is None:
             continue
 
-        tt_output_ch = timing_table[timing_table["hardware_channel"] == output_ch]
-        tt_output_ch = tt_output_ch[tt_output_ch.is_acquisition != False]  # noqa: E712
+        tt_all_ch = timing_table[timing_table["hardware_channel"] == output_ch]
+        # A readout pulse overlaps with its acquisition, pulses do not overlap with pulses
+        # and acquisitions do not overlap with acquisitions.
+        for is_acquisition in (False, True):
+            tt_output_ch = tt_all_ch[tt_all_ch.is_acquisition == is_acquisition]
+
+            end_time = tt_output_ch["abs_time"] + tt_output_ch["duration"]
+            # if any have overlap (of more than the rounding errors of the times)
+            overlaps = np.flatnonzero(end_time.shift(1) - tt_output_ch["abs_time"] > 1e-11)
+            if len(overlaps) > 0:
+                clashing_op = tt_output_ch.iloc[overlaps[0]]
+                preceding_op = tt_output_ch.iloc[overlaps[0] - 1]
 
-        end_time = tt_output_ch["abs_time"] + tt_output_ch["duration"]
-        # if any have overlap
-        if (end_time.shift(1) > tt_output_ch["abs_time"]).any():
-            clashing_ops = tt_output_ch[(end_time.shift(1) > tt_output_ch["abs_time"])]
-            clashing_op = clashing_ops.iloc[0]
-            preceding_op = tt_output_ch.loc[clashing_op.name - 1]
-
-            raise ValueError(
-                f"Operation {clashing_op.operation} at time"
-                f" {clashing_op.abs_time * 1e9:.1f} ns "
-                f"overlaps with {preceding_op.operation} at "
-                f"time {preceding_op.abs_time * 1e9:.1f} ns "
-                f"on output channel {clashing_op.hardware_channel}."
-            )
+                raise ValueError(
+                    f"Operation {clashing_op.operation} at time"
+                    f" {clashing_op.abs_time * 1e9:.1f} ns "
+                    f"overlaps with {preceding_op.operation} at "
+                    f"time {preceding_op.abs_time * 1e9:.1f} ns "
+                    f"on output channel {clashing_op.hardware_channel}."
+                )
 
 
 def _extract_port_clock_channelmapping(hardware_cfg: dict[str, Any]) -> dict[str, str]:
-- 
2.43.0


From dbe20953430050b50747e8ef4e9eb0d8e5eb2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:43 +0000
Subject: [PATCH 45/48] fix: modulate Zurich Instruments waveforms with as many
 times as samples

---
 quantify_scheduler/backends/zhinst_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/zhinst_backend.py b/quantify_scheduler/backends/zhinst_backend.py
index 619cb1b..ab67c4d 100644
--- a/quantify_scheduler/backends/zhinst_backend.py
+++ b/quantify_scheduler/backends/zhinst_backend.py
@@ -588,7 +588,7 @@ def apply_waveform_corrections(
     if is_pulse:
         # Modulate the waveform
         if output.modulation.type == zhinst.ModulationModeType.PREMODULATE:
-            t: np.ndarray = np.arange(0, 0 + duration_in_seconds, 1 / instrument_info.sample_rate)
+            t: np.ndarray = np.arange(len(waveform)) / instrument_info.sample_rate
             waveform = waveform_helpers.modulate_waveform(
                 t, waveform, output.modulation.interm_freq
             )
@@ -601,7 +601,7 @@ def apply_waveform_corrections(
     # in the case where the waveform is an integration weight
     elif output.modulation.type == zhinst.ModulationModeType.PREMODULATE:
         # Modulate the waveform
-        t: np.ndarray = np.arange(0, 0 + duration_in_seconds, 1 / instrument_info.sample_rate)
+        t: np.ndarray = np.arange(len(waveform)) / instrument_info.sample_rate
         # N.B. the minus sign with respect to the pulse being applied
         waveform = waveform_helpers.modulate_waveform(
             t, waveform, -1 * output.modulation.interm_freq
-- 
2.43.0


From 1c2192e6bdcae0104ce407cd52d8176520bd360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:48 +0000
Subject: [PATCH 46/48] fix: set the configured attenuations of QRC outputs,
 not whether they are configured

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index ea02136..05ad904 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1373,7 +1373,7 @@ class _QRCComponent(_RFComponent, _AnalogReadoutComponent):
         # configure attenuation
 
         for i in range(6):
-            if out_att := getattr(settings, f"out{i}_att") is not None:
+            if (out_att := getattr(settings, f"out{i}_att")) is not None:
                 self._set_parameter(self.instrument, f"out{i}_att", out_att)
 
     def _configure_lo_settings(
-- 
2.43.0


From 5db47963ffe95df59b1d3da75a2187cdce12a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:48 +0000
Subject: [PATCH 47/48] fix: number the outputs of corrected channels
 consistently

---
 .../backends/qblox/instrument_compilers.py    | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index ef3631d..7a0eabb 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -228,7 +228,6 @@ class QCMCompiler(BasebandModuleCompiler):
                     # `correction_cfg` can also be a `SoftwareDistortionCorrection`
                     if isinstance(correction_cfg, (HardwareDistortionCorrection, list)):
                         output_name = path.channel_name
-                        output_number = int(output_name.split("_")[-1])
                         channel_description = getattr(
                             self.instrument_cfg.hardware_description, output_name
                         )
@@ -237,30 +236,22 @@ class QCMCompiler(BasebandModuleCompiler):
                             if channel_description is not None
                             else False
                         )
-                        if module_distortion_configs.get(output_number) is None:
-                            if isinstance(correction_cfg, HardwareDistortionCorrection):
-                                output_number = int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg,
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                            elif isinstance(correction_cfg, list):
-                                output_number = 2 * int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[0],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                                output_number += 1
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[1],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                        else:
+                        output_numbers = self.static_hw_properties._get_connected_output_indices(
+                            output_name
+                        )
+                        if any(output in module_distortion_configs for output in output_numbers):
                             raise ValueError(
                                 f"Attempting to set distortion corrections to"
                                 f"{output_name} using portclock {portclock}, while it"
                                 f"has previously already been set on this output."
                             )
+                        if isinstance(correction_cfg, HardwareDistortionCorrection):
+                            correction_cfg = [correction_cfg]
+                        for output_number, output_correction in zip(output_numbers, correction_cfg):
+                            module_distortion_configs[output_number] = {
+                                "distortion_corrections": output_correction,
+                                "marker_debug_mode_enable": marker_debug_mode_enable,
+                            }
         return module_distortion_configs
 
     def _configure_filter(
-- 
2.43.0


From a092afa9e4a71b02611ef7f049286a0ae02246a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:48 +0000
Subject: [PATCH 48/48] fix: reject FIR coefficients that are out of range

---
 quantify_scheduler/backends/qblox/instrument_compilers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index 7a0eabb..8d193e9 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -212,7 +212,8 @@ class QCMCompiler(BasebandModuleCompiler):
                                 marker_debug_mode_enable,
                             )
                     if key == "fir_coeffs" and value is not None:
-                        if len(value) != 32 or np.any(value) < -2 or np.any(value) >= 2:
+                        coeffs = np.array(value)
+                        if len(value) != 32 or np.any(coeffs < -2) or np.any(coeffs >= 2):
                             raise ValueError(
                                 "The FIR filter has 32 coefficients with a range of [-2,2) each."
                             )
-- 
2.43.0

