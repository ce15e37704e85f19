#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QB = "quantify_scheduler/backends/qblox/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), level="proof", note="", claimed=True, na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level=level, note=note, claimed=claimed, na=na))


prop("C01", "Timing constraints resolve to consistent absolute times",
     "Once a schedule's absolute timing is determined, every operation whose timing constraint names a reference starts "
     "at that reference's chosen point (start, center or end) plus rel_time minus its own chosen point, where an omitted "
     "reference means the previously added operation, and the whole schedule is shifted so that its earliest operation "
     "starts at time zero. The reported duration is the latest end of any operation, where a loop lasts repetitions "
     "times its body and a nested schedule lasts as long as its content. Computing the timing again, or in a different "
     "process, gives the same times, and constraints naming unknown references are rejected.",
     ["schedules", "programs"], "all finite schedules, reference points, rel_times, durations and nesting depths",
     "The tests time a few hand-written schedules; the constraint algebra has to hold for every acyclic constraint "
     "graph, negative rel_times, loops and nested schedules.",
     ["quantify_scheduler/compilation.py", "quantify_scheduler/schedules/schedule.py"],
     [("absolute timing determination", "compilation.py:_determine_absolute_timing*"),
      ("normalisation", "compilation.py:_normalize_absolute_timing"),
      ("duration", "schedules/schedule.py:get_schedule_duration")],
     ["schedulable['abs_time']", "Schedule.duration", "Schedule.timing_table"])

prop("C02", "Qblox sequencer programs run every operation at its scheduled time",
     "Executing the real-time sequencer program generated for a schedule performs every pulse, acquisition, offset and "
     "clock or phase update at exactly the time the schedule assigns to it, in every loop iteration and in every "
     "repetition. Each sequencer's repetition lasts exactly as long as the schedule, every emitted real-time wait or "
     "duration immediate lies within what the hardware accepts, and a schedule that cannot be realised is rejected with "
     "an error instead of being mistimed.",
     ["schedules", "inputs"], "all wait lengths, operation orders, gaps, nested loops and repetition counts",
     "Reference-file tests pin a few programs; elapsed-time bookkeeping must match the text of every generated program.",
     [QB + "qasm_program.py", QB + "compiler_abc.py", QB + "operation_handling"],
     [("wait generation", QB + "qasm_program.py:QASMProgram.auto_wait"),
      ("elapsed time bookkeeping", QB + "operation_handling/*.insert_qasm")],
     ["generated Q1ASM text"])

prop("C03", "Numbers written into Qblox programs decode to the requested values",
     "Every time, phase, frequency, delay, gain and offset that the Qblox compiler writes into a program decodes, on the "
     "hardware's number scale, to the physical value requested within the documented rounding. Values that the hardware "
     "scale or the time grid cannot represent are rejected with an error rather than wrapped or silently rounded.",
     ["inputs"], "all real times, phases (any sign and magnitude), frequencies, delays, amplitudes and offsets",
     "Tests sample a handful of values per encoder; rounding, sign and boundary behaviour quantify over all reals.",
     [QB + "helpers.py", QB + "qasm_program.py", QB + "operation_handling/virtual.py"],
     [("time grid", QB + "helpers.py:to_grid_time"),
      ("NCO phase and frequency", QB + "helpers.py:get_nco_phase_arguments, get_nco_set_frequency_arguments"),
      ("fine delay", QB + "helpers.py:convert_qtm_fine_delay_to_int"),
      ("gain and offsets", QB + "qasm_program.py:QASMProgram.expand_awg_from_normalised_range")],
     ["generated Q1ASM immediates"])

prop("C04", "Qblox waveform times gain reproduces the requested pulse",
     "For every pulse and weighted acquisition, the waveform samples uploaded to a Qblox module multiplied by the gain set "
     "before playing them equal, on both paths, the pulse's mathematical waveform sampled at 1 GSa/s within one "
     "least-significant bit of the digital scale; a path whose waveform stays below one least-significant bit puts out "
     "at most one least-significant bit. Two different waveforms never share an index in one sequencer, equal ones may, and pulses "
     "whose amplitude exceeds full scale or whose samples do not fit in memory are rejected.",
     ["inputs", "schedules"], "all pulse types, amplitudes, phases, durations and sequences of pulses sharing a "
     "sequencer", "Tests use fixed amplitudes; the normalisation, sharing and splitting logic branches on sign, zero, "
     "complexness and equality of waveforms.",
     [QB + "operation_handling/pulses.py", QB + "helpers.py", QB + "operation_handling/acquisitions.py"],
     [("normalisation", QB + "operation_handling/pulses.py, helpers/waveforms.py:normalize_waveform_data"),
      ("waveform and weight dictionaries", QB + "helpers.py:add_to_wf_dict_if_unique")],
     ["awg waveform dictionary and generated program"])

prop("C05", "Clock, LO and intermediate frequencies always add up",
     "For every output that mixes a clock with a local oscillator, the frequencies chosen by the compiler satisfy clock "
     "= LO + IF (with the documented sign for the mixer correction and downconverter), whichever of LO or IF the user fixed. "
     "Under- or over-determined and conflicting settings are rejected, and changing a clock during a schedule shifts the NCO by "
     "exactly the change of the clock.",
     ["configurations", "inputs"], "all clock, LO, IF and downconverter frequencies and all combinations of specified / "
     "unspecified options", "A handful of configurations are tested; the relation has to hold for all frequencies and all "
     "combinations.",
     ["quantify_scheduler/backends/corrections.py", QB + "helpers.py", QB + "analog.py",
      "quantify_scheduler/backends/qblox_backend.py", "quantify_scheduler/backends/zhinst_backend.py"],
     [("frequency determination", QB + "helpers.py:determine_clock_lo_interm_freqs")],
     ["compiled LO/NCO settings"])

prop("C06", "Hardware acquisition bins are never shared by two acquisitions",
     "In the compiled program of one sequencer, no two acquisitions that must be stored separately write to the same hardware "
     "acquisition index and bin, all bins lie within the memory declared for that acquisition, and the memory declared for an "
     "acquisition index never exceeds the hardware's (the documented number of bins per index, and number of indices) or compilation fails. The mapping reported for retrieval assigns to every acquisition channel "
     "and acquisition index exactly the bins that the program writes for it, once per repetition when appending.",
     ["histories", "schedules"], "all sequences of acquisition requests: protocols, channels, index counts, repetitions "
     "and bin modes", "Allocation depends on the history of earlier allocations; tests only cover short histories.",
     [QB + "qblox_acq_index_manager.py", QB + "analog.py", QB + "operation_handling/acquisitions.py"],
     [("bin allocation", QB + "qblox_acq_index_manager.py:QbloxAcquisitionIndexManager")],
     ["acquisition declarations and acquire instructions in the program", "acquisition mapping"])

prop("C07", "Acquisition indices of a schedule are complete, unique and ordered",
     "For every schedule, each acquisition in each loop iteration receives its own acquisition index on its channel (or "
     "shares the one index when averaging is requested), indices of a channel are consecutive from zero in schedule order (acquisitions "
     "for which the user gave an index keep that one), "
     "and the reported coordinates belong to the acquisition with that index. Incompatible uses of one acquisition channel are "
     "rejected.",
     ["schedules"], "all schedules: nesting of loops, channels, protocols, bin modes and explicit coordinates",
     "Index allocation is recursive over loops and nested schedules; tests pin a few shapes.",
     ["quantify_scheduler/helpers/generate_acq_channels_data.py"],
     [("index generation", "helpers/generate_acq_channels_data.py:generate_acq_channels_data")],
     ["acquisition channel data of a schedule"])

prop("C08", "Overlapping pulses are merged without changing the output",
     "Where pulses on one output overlap in time and are merged by the compiler, at every instant the merged pulses sum to the "
     "same amplitude as the original overlapping pulses. Pulses that overlap nothing, pulses on other outputs and all "
     "acquisitions are left as they were, and afterwards no two pulses of one output and clock overlap.",
     ["schedules"], "all sets of overlapping pulses, constant, arbitrary and mixed, any number of outputs",
     "Tests merge two or three fixed pulses; interval splitting is a sweep over all start and end orders.",
     [QB + "stack_pulses.py"], [("stacking", QB + "stack_pulses.py:stack_pulses")],
     ["the schedule returned by the pass"])

prop("C09", "Pulse compensation makes the net area of every compensated port zero",
     "After adding pulse compensation to a schedule body, the time integral of all pulses on each compensated port, loops "
     "counted with their repetitions, is zero. The compensation pulse never exceeds the allowed maximum amplitude, starts after "
     "the last pulse of the body on that port has ended, has a duration on the time grid, and ports that were not asked for are not "
     "touched.", ["schedules", "inputs"], "all bodies of pulses and loops, amplitude limits, grids and sampling rates",
     "Tests check a few bodies; the sum over nested loops and the amplitude/duration choice quantify over all reals.",
     ["quantify_scheduler/pulse_compensation.py", "quantify_scheduler/operations/pulse_compensation_library.py"],
     [("compensation", "pulse_compensation.py")], ["the compensated schedule"])

prop("C10", "Conditional branches take the same time whether or not they are taken",
     "In the generated sequencer program a conditional section consumes exactly the time the schedule reserves for it, "
     "whatever the measurement outcome was and whatever it contains. The outcome tested is the one produced by the "
     "acquisition with the requested feedback label, and instructions after the section are unconditional again.",
     ["schedules", "inputs"], "all bodies (number of real-time instructions, loops, waits) and outcomes",
     "Tests pin the text for a few bodies; the replacement wait has to match for every instruction count and duration.",
     [QB + "conditional.py", QB + "qasm_program.py", QB + "operation_handling/virtual.py"],
     [("conditional context", QB + "qasm_program.py:QASMProgram.conditional"), ("conditional manager", QB + "conditional.py")],
     ["generated Q1ASM text"])

prop("C11", "Sequencer registers are never handed out twice",
     "A register handed out for a loop counter or address is one of the hardware's registers and is not in use by anything else until it is freed. "
     "Requesting more registers than exist, and freeing a register that is not in use or does not exist, are rejected, "
     "and leaving a loop or temporary scope returns exactly the registers it took, also when an error occurs.",
     ["histories"], "all histories of allocations and frees", "Allocation correctness is an invariant over all histories.",
     [QB + "register_manager.py", QB + "qasm_program.py"], [("register manager", QB + "register_manager.py")],
     ["register operands in generated programs"])

prop("C12", "Latency corrections shift every port-clock consistently",
     "Every operation on a port-clock that has a latency correction is delayed by that correction relative to operations "
     "without one, and the relative timing of all other operations is unchanged. Negative corrections are "
     "compensated by delaying everything else so that no operation starts before time zero, and applying the corrections never "
     "shifts any operation twice.",
     ["configurations", "inputs"], "all sets of corrections of any sign and all port-clocks", "Only a few correction sets are "
     "tested.", ["quantify_scheduler/backends/corrections.py", QB + "compiler_abc.py"],
     [("relative latency", "backends/corrections.py:determine_relative_latency_corrections")],
     ["operation times per port-clock in the compiled program"])

prop("C13", "Serialising and deserialising gives back an equal object",
     "For every operation, schedule, resource, compiled schedule, device element, edge and quantum device (its elements and edges with all their "
     "parameters, and its repetitions), encoding it and decoding it again (operations and schedules: JSON, pickle, deepcopy, dictionaries; device "
     "elements, edges and devices: JSON, YAML, dictionaries) gives an object of the same type with the same content (numbers of any Python or numpy type by value, arrays "
     "with their shape and data type, complex numbers, enumerations, classes, nested schedules, the order of schedulables, the timing references "
     "and the resources) that is equal to the original and has the same identity and duration. Two things are not kept by JSON and not promised: a "
     "tuple in the data of an object may come back as a list, and the settings objects and string enumerations inside compiled instructions as plain dictionaries "
     "and strings with the same content. A schedule that made the round trip compiles to the same result as the original.",
     ["programs", "inputs"], "all operation classes and parameter values, all schedules",
     "Tests round-trip default instances; parameters are unbounded.",
     ["quantify_scheduler/json_utils.py", "quantify_scheduler/operations", "quantify_scheduler/schedules/schedule.py"],
     [("encoder and decoder", "json_utils.py"), ("state protocol", "operations/operation.py:__getstate__/__setstate__")],
     ["to_json / from_json"])

prop("C14", "Operations are identified by their content",
     "Two operations are equal, and have the same identity hash, when they have the same content (numbers being compared by value, in any key order); "
     "operations with different content (any parameter, of any type and value, at any depth) are never equal and never have the same identity. Copies "
     "keep the identity. A schedule that stores operations under their identity always plays for each entry an operation with the content of the one "
     "that was added there, in the order of adding, with exactly the reference, reference points and relative time that were given.",
     ["inputs", "histories"], "all pairs of operations and parameter values", "Conflation depends on pairs of values tests never "
     "form.", ["quantify_scheduler/operations/operation.py", "quantify_scheduler/helpers/collections.py",
               "quantify_scheduler/schedules/schedule.py"],
     [("content hash", "helpers/collections.py:make_hash")], ["Operation.hash", "Schedule.operations"])

prop("C15", "Gate-to-device compilation preserves gates' meaning and timing",
     "Compiling gates to the device layer replaces every gate on an element by what the device configuration specifies for that gate, with the gate's "
     "rotation angle and axis, measurement settings (protocol, channel, index, bin mode) and clock carried over, for every element it addresses. "
     "Device overrides given with a gate replace exactly the configured values they name, on each element; a gate on two elements uses the configuration of its edge, and what follows a "
     "measurement starts after its acquisition delay exactly if that was asked for. Clocks used are registered with the schedule's own frequency, else with the configured one, and conflicting "
     "frequencies are rejected. Operations already at device level are unchanged, and merging adjacent virtual Z rotations never changes the total phase seen by any later operation.",
     ["programs", "configurations"], "all circuits, angles and device configurations", "Tests use fixed circuits and default "
     "configurations.", ["quantify_scheduler/backends/circuit_to_device.py", "quantify_scheduler/operations/pulse_factories.py",
                         "quantify_scheduler/operations/measurement_factories.py", "quantify_scheduler/compilation.py"],
     [("operation compilation", "backends/circuit_to_device.py"), ("Rz merging", "compilation.py:_merge_rz_gates")],
     ["the compiled schedule's pulses, clocks and acquisitions"])

prop("C16", "Compilation is deterministic and leaves its input alone",
     "Compiling a schedule does not modify the schedule, its operations or the configuration passed in, when keeping the original is requested (the default). Compiling the same "
     "schedule twice, a copy of it, or the same schedule in another process produces equal compiled instructions (but for names of waveforms that are only unique within a process), "
     "and compiling one schedule never influences the result of compiling another.",
     ["programs", "histories"], "all schedules and sequences of compilations", "Tests compile a schedule once; aliasing only shows over sequences.",
     ["quantify_scheduler/backends/graph_compilation.py", "quantify_scheduler/compilation.py", "quantify_scheduler/backends/qblox_backend.py"],
     [("compiler driver", "backends/graph_compilation.py:QuantifyCompiler.compile")], ["compiled instructions", "input schedule"])

prop("C17", "Pulse waveforms follow their documented formula and sampling",
     "Sampling a pulse of a given duration and rate yields duration * rate samples (rounded when that is not whole) whose values are the documented "
     "function of time (square, ramp, soft square, chirp, DRAG, Gaussian, staircase, interpolated and numerical), independent of the "
     "position of the pulse in the schedule, for all parameters. Amplitude scales the result linearly and rotating the phase only "
     "multiplies it by a phase factor.",
     ["inputs"], "all parameters, durations and sampling rates", "Tests compare a few arrays.",
     ["quantify_scheduler/waveforms.py", "quantify_scheduler/helpers/waveforms.py"],
     [("waveform functions", "waveforms.py"), ("sampling", "helpers/waveforms.py:get_waveform")], ["get_waveform"])

prop("C18", "Long and stitched pulses reproduce the pulse they replace",
     "A stitched pulse built from short segments and voltage offsets has at every sample the value its parts define, and the convenience constructors (long square, long ramp "
     "and staircase pulses) yield exactly the ideal long pulse for every duration, amplitude and grid time. Conversion to a "
     "numerical pulse keeps every sample and the duration, a voltage offset that was set before a long square pulse stays, and "
     "operations with voltage offsets that overlap other pulses on the same port and clock are rejected.",
     ["inputs"], "all amplitudes, offsets, durations and grid times", "Only a few durations are tested; splitting depends on "
     "remainders and rounding.", [QB + "operations/pulse_factories.py", QB + "operations/stitched_pulse.py"],
     [("factories", QB + "operations/pulse_factories.py"), ("builder", QB + "operations/stitched_pulse.py")],
     ["sum of played waveforms and offsets"])

prop("C19", "ZI instruction timing realises the schedule on the device clock",
     "For the Zurich Instruments backend, a time on the sample grid of a device is split into clock cycle and sample, and other "
     "times are rejected. Every pulse and acquisition is issued at its clock cycle: the emitted waits and instructions, with the "
     "cycles each of them takes, add up to its time, for any number of them and every set of markers and triggers, and those the "
     "device cannot execute (too close, overlapping) are rejected, never silently moved or dropped. The samples that are played "
     "start at the sample of the pulse; waveforms are filled up to the granularity without changing samples; measurements are "
     "moved to sample zero of a clock cycle by the smallest common shift, and what precedes a measurement moves with it.",
     ["inputs", "schedules"], "all times, durations and sequences of pulses and acquisitions", "Reference tests pin single "
     "programs, and none of them runs where the vendor's packages are not installed.",
     ["quantify_scheduler/backends/zhinst_backend.py", "quantify_scheduler/backends/zhinst/seqc_il_generator.py",
      "quantify_scheduler/helpers/waveforms.py"],
     [("clock cycle and sample", "backends/zhinst_backend.py _determine_clock_sample_start, _apply_measurement_fixpoint_correction"),
      ("programs", "backends/zhinst_backend.py _assemble_hdawg_sequence, _assemble_uhfqa_sequence"),
      ("waits", "backends/zhinst/seqc_il_generator.py"), ("waveforms", "backends/zhinst_backend.py construct_waveform_table")],
     ["SeqC text, waveforms and timing tables"])

prop("C20", "Retrieved acquisition data lands under its channel and index",
     "When results are retrieved from Qblox hardware, every returned value is placed under the acquisition channel, acquisition "
     "index and repetition whose acquisition produced it, scaled by its integration length, with no value lost or duplicated. Data "
     "of several instruments is merged only when they do not overlap; conflicting data is rejected.",
     ["histories", "configurations"], "all acquisition mappings, bins, protocols, repetition counts and raw data",
     "Tests use dummy data for few mappings.", ["quantify_scheduler/instrument_coordinator/components/qblox.py",
                                               "quantify_scheduler/instrument_coordinator/utility.py"],
     [("retrieval", "instrument_coordinator/components/qblox.py")], ["retrieve_acquisition dataset"])

prop("C21", "The automatic RF switch is on exactly around microwave pulses",
     "With the automatic RF switch enabled, the switch of every microwave output (port names ending in ':mw') is on from one ramp buffer before the start (but not before time "
     "zero) until one ramp buffer after the end of every pulse, and of every stretch between a voltage offset being set and being set back to zero, at whatever depth of nested "
     "schedules and loops the pulse is. It stays on between two of these that are at most two ramp buffers apart and is off everywhere else; no two switch-on periods of one output "
     "overlap. Everything else in the program stays as it was, and nothing changes when it is not enabled.",
     ["schedules", "configurations"], "all pulse and offset patterns, gaps and buffer times", "Tests use few patterns; merging depends "
     "on all gaps.", [QB + "auto_rf_switch.py"], [("window merging", QB + "auto_rf_switch.py")],
     ["digital output (marker) events of the compiled program"])

prop("C22", "Crosstalk compensation realises the inverse crosstalk matrix",
     "With a crosstalk matrix given (crosstalk[source][destination], one on the diagonal unless given), compiling adds and scales pulses such that what crosstalk makes of the signals that "
     "are sent is the signal that the pulses of the schedule requested, on every listed port-clock at every time: each pulse is sent times the diagonal entry of the inverse matrix, and at the "
     "same time on every other listed port-clock times the entry of the inverse matrix from its own port-clock to that one. This holds for pulses of every kind with real or complex amplitudes, for operations "
     "of several pulses, for operations and schedules that occur several times, and inside nested schedules, loops and conditional sections. Port-clocks that are not listed, acquisitions, voltage "
     "offsets, and the timing of everything are unchanged, and without a crosstalk matrix nothing changes.",
     ["schedules", "configurations"], "all matrices and schedules", "Tests apply one matrix to one pulse.",
     [QB + "crosstalk_compensation.py"], [("compensation", QB + "crosstalk_compensation.py:crosstalk_compensation")], ["compensated schedule", "waveforms of its pulses"])

prop("C23", "Accepted schedules give programs that the sequencers accept",
     "When the Qblox compiler accepts a schedule, every sequencer program it returns can be loaded and run: the program assembles (all instructions, operands, labels and "
     "registers are valid), each wait is between 4 and 65535 ns however long the pause, and the waveforms, weights and acquisitions "
     "that belong to the program are within full scale, have distinct indices and fit into the memory of the sequencer.",
     ["schedules", "configurations"], "all accepted schedules with pulses, offsets, frame changes, acquisitions of every protocol, loops and conditional sections",
     "The tests compare a few programs with stored ones and assemble none of the combinations users write.",
     [QB + "qasm_program.py", QB + "compiler_abc.py", QB + "operation_handling/acquisitions.py", QB + "operation_handling/pulses.py",
      QB + "register_manager.py"],
     [("instructions", QB + "qasm_program.py"), ("sequencer programs", QB + "compiler_abc.py")],
     ["compiled_instructions[cluster][module]['sequencers'][seq].sequence"])

prop("C24", "Software distortion corrections apply exactly once to the pulses they are for",
     "Where a software distortion correction is configured for a port and clock, every pulse on it (short enough to be played as a waveform) is put out as the result of the given filter applied to the "
     "samples of the pulse, taken at the given rate, with the given arguments, clipped to the given limits and spread over the pulse's duration: once, in every nested schedule, loop and "
     "conditional section, and however often the same operation, loop or schedule object is used. Pulses on other ports or clocks, acquisitions, and the start and duration of "
     "everything, stay as they are.",
     ["schedules", "configurations"], "all pulses, filters, limits and schedules", "The tests correct a single pulse of a flat schedule.",
     ["quantify_scheduler/backends/corrections.py"],
     [("correction", "backends/corrections.py:apply_software_distortion_corrections"), ("one pulse", "backends/corrections.py:distortion_correct_pulse")],
     ["compiled programs and waveforms"])

prop("C25", "After prepare the Qblox instruments hold exactly what was compiled for them",
     "Whatever a Qblox cluster held before, after prepare every sequencer in use holds its program and all its compiled settings (connections, modulation frequency, gain, mixer correction, offsets, "
     "acquisition and trigger settings, synchronisation), every other sequencer does not take part in synchronisation, and every module in use holds its offsets, attenuations, gains, LO frequencies "
     "and filters; settings the user did not configure are left alone, and automatic LO and sideband calibration runs exactly when asked for and due. QTM channels hold their direction, thresholds, trigger "
     "and time reference settings. A parameter that is only set when needed holds the new value whatever was cached. On the outputs of a port and clock for which hardware "
     "distortion corrections are configured, exactly the configured filters are on, with their coefficients; delays replace the filters whose latency is to be compensated; coefficients out of range, "
     "outputs corrected twice, and marker debug mode on an output whose marker is used, are rejected, and nothing else is.",
     ["compiled programs", "configurations", "histories"], "all compiled settings, all module types, all previous states",
     "The tests prepare a few programs on fresh dummies and mostly check that calls were made.",
     ["quantify_scheduler/instrument_coordinator/components/qblox.py", "quantify_scheduler/backends/qblox/instrument_compilers.py", "quantify_scheduler/backends/qblox/analog.py"],
     [("prepare", "instrument_coordinator/components/qblox.py:_ModuleComponentBase.prepare"), ("filters", "backends/qblox/instrument_compilers.py:QCMCompiler._configure_hardware_distortion_corrections"),
      ("lazy parameters", "instrument_coordinator/components/qblox.py:_ModuleComponentBase._set_parameter")],
     ["instrument parameters after prepare", "rejection of configurations"])

TECH = "contract-based deductive verification: symbolic VC generation from the real source, z3/cvc5; contracts also run on the real code (bounded)"


# properties whose deciding obligations are mostly executed contracts rather than discharged ones
EXPLORED = {"C08", "C13", "C14", "C16", "C23"}


def notes():
    """per property, the units by the way they are decided (from UNITS.md)"""
    out, p = {}, None
    for line in open(f"{VERIF}/UNITS.md"):
        if line.startswith("## "):
            p = line[3:].strip()
        elif line.startswith("* **"):
            name, modes = line[4:].split("**")[0], line.split("(", 1)[1].split(")")[0]
            kind = "prove" if "prove" in modes else "bounded" if "bounded" in modes else "fuzz"
            out.setdefault(p, {}).setdefault(kind, []).append(name)
    text = {"prove": "Proved for all values (all obligations discharged on every run): ",
            "bounded": "Bounded symbolic, not counted as proved: ",
            "fuzz": "Contract executed on the real code with generated inputs, bounded, not counted as proved: "}
    return {p: " ".join(f"{text[k]}{', '.join(u[k])}." for k in text if k in u) for p, u in out.items()}


def main():
    note = notes()
    kept = []
    for p in P:
        kept.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }, ensure_ascii=False))
    open(f"{VERIF}/properties.jsonl", "w").write("\n".join(kept) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
           "notes": "check.py runs worker.py twice (symbolic proof, concrete contract execution); see DESIGN.md"}
    import glob
    for p in P:
        have = glob.glob(f"{VERIF}/units/{p['id'].lower()}*.py")
        if have and p["claimed"]:
            man["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                                  "thorough_cmd": f"python3 check.py {p['id']} thorough", "technique": TECH,
                                  "level": "exploration" if p["id"] in EXPLORED else p["level"],
                                  "level_note": note[p["id"]] + " Floats are treated as reals in proofs; further "
                                  "assumptions per unit: UNITS.md, DESIGN.md." + p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "not built yet"})
    json.dump(man, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)


main()
