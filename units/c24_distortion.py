"""C24: software distortion corrections."""
from __future__ import annotations

import copy
import warnings

from engine.core import unit

C = "quantify_scheduler.backends.corrections"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"


# --- one pulse ---------------------------------------------------------------------------------------------------------------

@unit("C24.contract", "C24", modes=("bounded",), bounded={"len": 3, "max_paths": 600}, budget=60,
      targets=[f"{C}:distortion_correct_pulse"],
      assumptions=[FLOAT, "the filter is any function of the samples; sampling: C17", "bounded: up to 3 samples (symbolic run)"])
def contract(vc):
    """the filter gets the samples of the pulse and its other arguments; its result, clipped, spread over the duration, is the pulse"""
    import numpy as np

    from quantify_scheduler.backends.types.common import SoftwareDistortionCorrection

    n = vc.length("samples", 1, 3)
    xs = [vc.real("x", -1, 1) for _ in range(n)]
    ys = [vc.real("y", -3, 3) for _ in range(n)]
    clip = vc.choice("clipped", [None, (-0.5, 0.75), (-2.5, 2.5)])
    rate = vc.choice("rate", [1e9, 2e9])
    d, t0 = vc.real("duration", 1e-9, 1e-6), vc.real("t0", 0, 1e-6)
    info = {"wf_func": "some.function", "amp": 0.3, "duration": d, "t0": t0, "port": "p", "clock": "c"}
    before = dict(info)
    calls = []

    def sample(pulse_info, sampling_rate):
        calls.append(("sample", pulse_info, sampling_rate))
        return np.array(xs, dtype=object)

    def filter_(**kw):
        calls.append(("filter", kw))
        return np.array(ys, dtype=object)

    vc.stub(f"{C}:get_waveform", lambda pulse_info, sampling_rate: sample(pulse_info, sampling_rate),
            always=True)
    vc.stub(f"{C}:import_python_object_from_string", lambda function_string: (
        filter_ if function_string == "a.filter" else vc.prove("the filter of the correction", False, function_string)), always=True)
    cfg = SoftwareDistortionCorrection(filter_func="a.filter", input_var_name="signal", kwargs={"b": [1.0, 2.0], "a": [3.0]},
                                       clipping_values=list(clip) if clip else None, sampling_rate=rate)
    o = vc.run(vc.fn(f"{C}:distortion_correct_pulse"), pulse_data=info, distortion_correction=cfg)
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    vc.prove("sampled once, at the rate of the correction", [c[0] for c in calls] == ["sample", "filter"] and
             calls[0][1] == before and calls[0][2] == rate, repr(calls)[:300])
    kw = dict(calls[1][1])
    got = kw.pop("signal", None)
    vc.prove("the filter gets the samples", got is not None and len(got) == n and all(a is b or a == b for a, b in zip(got, xs)), repr(got))
    vc.prove("the filter gets its arguments", sorted(kw) == ["a", "b"] and list(kw["b"]) == [1.0, 2.0] and list(kw["a"]) == [3.0], repr(kw))
    vc.prove("the pulse itself is left alone", info == before)
    infos = o.value.data["pulse_info"]
    vc.prove("one pulse", len(infos) == 1)
    p = infos[0]
    want = [y if not clip else vc.ite(y < clip[0], vc.lit(str(clip[0])), vc.ite(y > clip[1], vc.lit(str(clip[1])), y)) for y in ys]
    if n == 1:
        want *= 2
    m = len(want)
    vc.prove("as many samples", len(p["samples"]) == m and len(p["t_samples"]) == m)
    for k in range(m):
        vc.prove("the samples are those of the filter, clipped", vc.eq(p["samples"][k], want[k]), (k, p["samples"][k], want[k]))
        vc.prove("spread over the duration", abs(p["t_samples"][k] - d * k / (m - 1)) <= vc.lit("1e-18"), (k, p["t_samples"][k]))
    vc.prove("the same port, clock and start", p["port"] == "p" and p["clock"] == "c" and vc.is_true(vc.eq(p["t0"], t0)))
    vc.prove("the same duration", abs(p["duration"] - d) <= vc.lit("1e-18"))


def real_pulse(vc, port="p", clock="c"):
    """the data of a pulse"""
    from quantify_scheduler.operations import pulse_library as pl

    n, a, t0 = vc.length("samples", 1, 30), round(vc.real("amp", -1, 1), 4), vc.length("t0", 0, 20) * 1e-9
    kw = {"port": port, "clock": clock, "t0": t0}
    k = vc.choice("pulse", ["square", "ramp", "drag"])
    op = pl.SquarePulse(amp=a, duration=n * 1e-9, **kw) if k == "square" else pl.RampPulse(amp=a, offset=0.1, duration=n * 1e-9, **kw) \
        if k == "ramp" else pl.DRAGPulse(G_amp=a, D_amp=0.2, phase=30, duration=n * 1e-9, **kw)
    return op.data["pulse_info"][0], n


def real_correction(vc):
    from quantify_scheduler.backends.types.common import SoftwareDistortionCorrection

    b, a = vc.choice("b", [[0.6, 0.2], [0.3], [0.5, -0.2, 0.1]]), vc.choice("a", [[1.0], [1.0, -0.4]])
    return SoftwareDistortionCorrection(filter_func="scipy.signal.lfilter", input_var_name="x", kwargs={"b": b, "a": a},
                                        clipping_values=vc.choice("clip", [None, [-0.2, 0.3], [0.05, 2.5]]), sampling_rate=vc.choice("rate", [1e9, 2e9]))


@unit("C24.pulse", "C24", modes=("fuzz",), fuzz=1500, budget=40, targets=[f"{C}:distortion_correct_pulse"],
      assumptions=["scipy.signal.lfilter", "sampling of the pulse: C17", "bounded: random pulses"])
def pulse(vc):
    """the filter gets the samples of the pulse and its other arguments; its result, clipped, spread over the duration, is the pulse"""
    import numpy as np
    from scipy.signal import lfilter

    info, n = real_pulse(vc)
    cfg = real_correction(vc)
    if cfg.clipping_values and "G_amp" in info:
        cfg.clipping_values = None
    before = dict(info)
    o = vc.run(vc.fn(f"{C}:distortion_correct_pulse"), pulse_data=info, distortion_correction=cfg)
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    vc.prove("the pulse itself is left alone", info == before)
    m = round(n * cfg.sampling_rate / 1e9)
    from quantify_scheduler.helpers.waveforms import get_waveform

    w = lfilter(cfg.kwargs["b"], cfg.kwargs["a"], get_waveform(pulse_info=before, sampling_rate=cfg.sampling_rate))
    vc.prove("sampling", len(w) == m)
    if cfg.clipping_values:
        w = np.minimum(np.maximum(w.real, cfg.clipping_values[0]), cfg.clipping_values[1])
    if m == 1:
        w = np.array([w[0], w[0]])
    infos = o.value.data["pulse_info"]
    vc.prove("one pulse", len(infos) == 1)
    p = infos[0]
    vc.prove("the samples are those of the filter, clipped", len(p["samples"]) == len(w) and np.allclose(p["samples"], w, rtol=0, atol=1e-12))
    vc.prove("spread over the duration", np.allclose(p["t_samples"], np.arange(len(w)) * info["duration"] / (len(w) - 1), rtol=0, atol=1e-18))
    vc.prove("the same port, clock, start and duration", all(vc.is_true(vc.eq(p[x], info[x])) for x in ("port", "clock", "t0")) and
             abs(p["duration"] - info["duration"]) < 1e-15)


# --- everything in a schedule ------------------------------------------------------------------------------------------------

PORTS = ["soft", "hard", "listed", "none"]


def corrections(vc):
    from quantify_scheduler.backends.types.common import HardwareDistortionCorrection, SoftwareDistortionCorrection

    soft = real_correction(vc) if not vc.symbolic else SoftwareDistortionCorrection(filter_func="f", input_var_name="x", kwargs={})
    return {"soft-c": soft, "hard-c": HardwareDistortionCorrection(), "listed-c": [soft]}


def make_op(vc, kinds):
    """an operation with up to three pulses and possibly an acquisition"""
    from quantify_scheduler.operations.operation import Operation

    op = Operation("op")
    for i in range(vc.length("pulses", 0, 2 if vc.symbolic else 3)):
        if not vc.symbolic:
            op.data["pulse_info"].append(real_pulse(vc, vc.choice("port", kinds), vc.choice("clock", ["c", "c", "d"]))[0])
            continue
        op.data["pulse_info"].append({"wf_func": "w", "amp": vc.real("amp", -1, 1), "duration": vc.real("dur", 0, 1), "t0": vc.real("t0", 0, 1),
                                      "port": vc.choice("port", kinds), "clock": vc.choice("clock", ["c"] if vc.symbolic else ["c", "c", "d"])})
    if vc.bool("acquisition"):
        op.data["acquisition_info"].append({"protocol": "Trace", "duration": vc.real("acq dur", 0, 1), "t0": vc.real("acq t0", 0, 1), "port": "soft",
                                            "clock": "c"})
    if vc.symbolic or vc.bool("gate"):
        op.data["gate_info"] = {"unitary": None, "operation_type": "gate"}
    op._update()
    return op


def listing(op, out, path=()):
    """every place where an operation is played: path -> (data, duration)"""
    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    if isinstance(op, ScheduleBase):
        out[path] = ("schedule", {k: repr(v) for k, v in op.schedulables.items()}, list(op.operations))
        for k, v in op.schedulables.items():
            listing(op.operations[v["operation_id"]], out, (*path, k))
    elif isinstance(op, ControlFlowOperation):
        out[path] = ("control", {k: repr(v) for k, v in op.data["control_flow_info"].items() if k != "body"})
        listing(op.body, out, (*path, "body"))
    else:
        out[path] = ("op", {k: (list(v) if isinstance(v, list) else v) for k, v in op.data.items()}, op.duration)
    return out


def tree(vc, depth, pool, kinds):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation

    if pool and vc.bool("again"):
        return vc.choice("which", pool)
    k = vc.choice("kind", ["op", "op", "loop", "cond", "schedule"] if depth else ["op"])
    if k == "op":
        x = make_op(vc, kinds)
    elif k == "loop":
        x = LoopOperation(body=tree(vc, depth - 1, pool, kinds), repetitions=3)
    elif k == "cond":
        x = ConditionalOperation(body=tree(vc, depth - 1, pool, kinds), qubit_name="q0")
    else:
        x = Schedule(f"s{len(pool)}")
        for _ in range(vc.length("entries", 1, 2 if vc.symbolic else 4)):
            x.add(tree(vc, depth - 1, pool, kinds))
    pool.append(x)
    return x


def check_tree(vc, depth, kinds):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.operation import Operation

    cfg = corrections(vc)
    s = Schedule("top")
    pool = []
    for _ in range(vc.length("top entries", 1, 2 if vc.symbolic else 4)):
        s.add(tree(vc, depth, pool, kinds))
    before = listing(copy.deepcopy(s) if not vc.symbolic else s, {})

    def expected(p):
        if (p["port"], p["clock"]) != ("soft", "c"):
            return p
        if vc.symbolic:
            return {**p, "wf_func": "corrected"}
        return vc.fn(f"{C}:distortion_correct_pulse")(pulse_data=p, distortion_correction=cfg["soft-c"]).data["pulse_info"][0]

    def corrected(pulse_data, distortion_correction):
        vc.prove("the correction of that port and clock", f"{pulse_data['port']}-{pulse_data['clock']}" == "soft-c" and
                 distortion_correction.filter_func == "f", repr(pulse_data)[:200])
        vc.prove("a pulse is corrected once", pulse_data["wf_func"] == "w", repr(pulse_data)[:200])
        op = Operation("NumericalPulse")
        op.data["pulse_info"] = [{**pulse_data, "wf_func": "corrected"}]
        op._update()
        return op

    vc.stub(f"{C}:distortion_correct_pulse", lambda pulse_data, distortion_correction: corrected(pulse_data, distortion_correction), always=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(vc.fn(f"{C}:apply_software_distortion_corrections"), s, cfg)
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    after = listing(o.value if o.value is not None else s, {})
    vc.prove("the same schedules, loops and conditional sections", list(after) == list(before) and
             all(after[k] == before[k] for k in before if before[k][0] != "op"))
    for k in before:
        if before[k][0] != "op":
            continue
        (_, old, d), (_, new, e) = before[k], after[k]
        for i, p in enumerate(old["pulse_info"]):
            want = expected(p)
            got = new["pulse_info"][i] if i < len(new["pulse_info"]) else {}
            vc.prove("the pulses of the listed port-clocks are corrected, and no others",
                     sorted(got) == sorted(want) and all(got[x] is want[x] or vc.is_true(vc.eq(got[x], want[x])) for x in want), (k, i, got, want))
        vc.prove("no other pulses", len(new["pulse_info"]) == len(old["pulse_info"]), k)
        for x in old:
            if x not in ("pulse_info", "name"):
                vc.prove("everything else of the operation stays", new.get(x) == old[x], (k, x))
        vc.prove("the operation takes as long as before", vc.eq(d, e), (k, d, e))


@unit("C24.operation", "C24", modes=("prove", "fuzz"), fuzz=200, budget=60, targets=[f"{C}:apply_software_distortion_corrections"],
      assumptions=[FLOAT, "distortion_correct_pulse: its contract (C24.pulse)", "an operation with up to 2 pulses (any parameters) and an acquisition"])
def operation(vc):
    """the pulses of an operation on the listed port-clocks are corrected; the rest and its duration stay"""
    check_tree(vc, 0, PORTS if not vc.symbolic else ["soft", "hard", "none"])


@unit("C24.schedule", "C24", modes=("fuzz",), fuzz=1500, shards=2, budget=60, targets=[f"{C}:apply_software_distortion_corrections"],
      assumptions=["distortion_correct_pulse: its contract (C24.pulse)", "bounded: random schedules"])
def schedule(vc):
    """every pulse of a schedule is corrected once, whatever it is in and however often its operation, loop or schedule is used"""
    check_tree(vc, 3, PORTS)


# --- compiled programs -------------------------------------------------------------------------------------------------------

@unit("C24.programs", "C24", modes=("fuzz",), fuzz=500, shards=3, budget=100,
      targets=[f"{C}:apply_software_distortion_corrections", f"{C}:distortion_correct_pulse", "quantify_scheduler.backends.qblox_backend:hardware_compile"],
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "scipy.signal.lfilter", "bounded: random schedules without long square pulses"])
def programs(vc):
    """compiled programs put out the filtered pulses on the listed port-clocks and the pulses as they are on the others"""
    import numpy as np
    from scipy.signal import lfilter

    from vlib import qcheck, qgen, qhw, qprop

    ports = [pc for pc in qhw.PORTS if pc in qgen.ANALOG]
    options = [
        {"b": [0.6, 0.2], "a": [1.0], "clip": None},
        {"b": [0.3], "a": [1.0, -0.4], "clip": None},
        {"b": [0.5, -0.2, 0.1], "a": [1.0], "clip": [-0.2, 0.25]},
    ]
    which = vc.length("listed", 0, len(ports) - 1)
    second = vc.length("listed too", 0, len(ports) - 1)
    opts = {}
    for pc, i in ((ports[which], vc.length("filter", 0, 2)), (ports[second], vc.length("filter 2", 0, 2))):
        o = dict(options[i])
        if not qgen.is_real(pc):
            o["clip"] = None
        opts[pc] = o
    hw = {"distortion_corrections": {f"{p}-{c}": {"filter_func": "scipy.signal.lfilter", "input_var_name": "x", "kwargs": {"b": o["b"], "a": o["a"]},
                                                  "clipping_values": o["clip"]} for (p, c), o in opts.items()}}
    c = qprop.Case(vc, hw_options=hw, ports=[ports[which], ports[second], vc.choice("other", ports), ("c0:mw", "c0.if")], kinds=("pulse", "pulse", "phase", "nested"), amp=0.9,
                   max_slots=4, min_amp=0.02, pulse_kinds=("square", "ramp", "drag", "numerical"), long_ok=False, shuffle=vc.bool("shuffle"))

    for pc, (e, a, q) in c.progs.items():
        if pc not in opts:
            continue
        o, real = opts[pc], qgen.is_real(pc)

        def filtered(w):
            n = len(w)
            y = lfilter(o["b"], o["a"], w)
            if o["clip"]:
                y = np.clip(y.real, *o["clip"])
            if n == 1:
                return y
            return np.interp(np.arange(n) * (n - 1) / n, np.arange(n), y.real) + 1j * np.interp(np.arange(n) * (n - 1) / n, np.arange(n), y.imag)

        e.segs = [(t, filtered(w)) for t, w in e.segs]
    c.well_formed()
    c.total()
    for pc, (e, a, q) in c.progs.items():
        d = qcheck.compare_output(e, a, qgen.is_real(pc), 4 * qcheck.LSB)
        vc.prove("the output is the filtered signal on listed port-clocks", d is None, (pc, pc in opts, d))
