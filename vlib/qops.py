"""Random operations and schedules of every kind, from the signatures of the operation classes."""
from __future__ import annotations

import inspect
import enum
import math
from collections.abc import Mapping

import numpy as np

# numbers that are easily taken for one another
NUMBERS = [-1, -2, -1.0, -2.0, 0, 0.0, 1, 1.0, 0.5, -0.5, 0.75, 2**60, 1e-9, 1e-10, 1.0000000001, 3, 0.1 + 0.2, 0.3, 1e9, -1e9,
           2**61 - 1, 2**61, np.float64(0.5), np.int64(-1), np.float32(0.5), np.int32(3), True]
COMPLEX = [0.75 + 0j, -0.75 + 0.5j, 0.5 + 0.5j, 1j, -1j, 1 + 0j, np.complex128(0.5 + 0.5j)]
TIMES = [0, 1e-9, 2e-9, 1e-6, 20e-9, 100e-9, np.float64(1e-6), 1.0000000000000002e-6]


def classes():
    import quantify_scheduler.backends.qblox.operations as qo
    from quantify_scheduler.operations import (acquisition_library, control_flow_library, gate_library, nv_native_library,
                                               pulse_compensation_library, pulse_library, shared_native_library)
    from quantify_scheduler.backends.qblox.operations import inline_q1asm
    from quantify_scheduler.operations.operation import Operation

    out = []
    for m in (pulse_library, acquisition_library, gate_library, control_flow_library, nv_native_library, shared_native_library,
              pulse_compensation_library, inline_q1asm, qo):
        for n, c in sorted(vars(m).items()):
            if inspect.isclass(c) and issubclass(c, Operation) and not inspect.isabstract(c) and (
                    c.__module__.startswith(m.__name__)) and n not in ("Acquisition", "AcquisitionOperation"):
                out.append(c)
    return out


def number(vc, name="n"):
    if vc.bool("round"):
        return vc.choice(name, NUMBERS)
    return vc.real(name, -1, 1)


def reference(vc):
    from quantify_scheduler.operations.pulse_library import ReferenceMagnitude

    if vc.bool("no reference"):
        return None
    return ReferenceMagnitude(vc.choice("ref", [0.5, 1.0, -1.0, -2.0]), vc.choice("unit", ["V", "dBm", "A"]))


def samples(vc, n):
    k = vc.choice("samples", ["list", "array", "complex", "float32", "ints"])
    v = [vc.choice("sample", [0.0, 0.5, -0.5, 0.75, -0.75, 1.0, -1.0]) for _ in range(n)]
    if k == "list":
        return v
    if k == "complex":
        return np.array(v) + 1j * np.array([vc.choice("imag", [0.0, 0.5, -0.5]) for _ in range(n)])
    if k == "float32":
        return np.array(v, dtype=np.float32)
    if k == "ints":
        return [int(2 * x) for x in v]
    return np.array(v)


def argument(vc, cls, name, p, depth):
    from quantify_scheduler import enums

    ann = str(p.annotation)
    if name in ("port", "time_ref_port"):
        return vc.choice("port", ["q0:mw", "q0:res", "q1:mw"])
    if name == "clock":
        return vc.choice("clock", ["q0.01", "q0.12", "q0.ro", "cl0.baseband"])
    if name in ("qubit", "qC", "qubit_name"):
        return vc.choice("qubit", ["q0", "q1"])
    if name == "qT":
        return vc.choice("target", ["q2", "q3"])
    if name == "body":
        return schedule(vc, depth - 1) if vc.bool("schedule") else operation(vc, depth - 1)[0]
    if name == "repetitions":
        return vc.length("reps", 1, 3)
    if name == "bin_mode":
        return vc.choice("bin", [enums.BinMode.AVERAGE, enums.BinMode.APPEND])
    if name == "time_source":
        return vc.choice("source", list(enums.TimeSource))
    if name == "time_ref":
        return vc.choice("time ref", list(enums.TimeRef))
    if name == "feedback_trigger_condition":
        return vc.choice("cond", list(enums.TriggerCondition))
    if name == "acq_channel":
        return vc.choice("channel", [0, 1, -1, "0", "a", "q0.x"])
    if name == "acq_index":
        return vc.choice("index", [None, 0, 1, 2])
    if name == "coords":
        return vc.choice("coords", [None, {"x": 1}, {"x": 1.5, "y": "a"}])
    if name == "acq_protocol":
        return vc.choice("protocol", [None, "Trace", "SSBIntegrationComplex", "ThresholdedAcquisition"]) if cls.__name__ == \
            "Measure" else vc.choice("protocol", [None, "Trace", "TriggerCount"])
    if name in ("feedback_trigger_label",) or name.startswith("label_"):
        return vc.choice("label", [None, "q0", "a"])
    if name == "apply_acquisition_delay":
        return vc.bool("delay")
    if name == "reference_magnitude":
        return reference(vc)
    if name == "interpolation":
        return vc.choice("interpolation", ["linear", "cubic", "nearest"])
    if name in ("window_name", "program"):
        return vc.choice("text", ["nop", "wait 4", "x"])
    if name == "waveforms":
        return vc.choice("waveforms", [None, {}, {"w": {"data": [0.5, -0.5], "index": 0}}, {"w": {"data": [0.5, 0.5], "index": 0}}])
    if name == "safe_labels":
        return vc.bool("safe")
    if name in ("waveform_a", "waveform_b"):
        return {"wf_func": "quantify_scheduler.waveforms.square", "amp": number(vc, name), "t0": 0}
    if name == "num_steps" or "threshold" in name and "int" in ann:
        return vc.length(name, 1, 5)
    if name == "clock_freq_new":
        return vc.choice("fnew", [None, 5e9, 5.1e9, -1.0, -2.0])
    if name == "amp" and "complex" in ann and vc.bool("complex"):
        return vc.choice("camp", COMPLEX)
    if name in ("duration", "t0", "t_pulse", "t_phi", "t_integral_correction", "fine_start_delay", "fine_end_delay",
                "hardware_buffer_time"):
        return vc.choice(name, TIMES)
    if name in ("weights_sampling_rate", "sampling_rate"):
        return 1e9
    if name == "phase" and "bin_mode" in inspect.signature(cls).parameters:
        return 0
    if name in ("theta", "phi", "phase", "phase_shift", "acq_rotation"):
        return vc.choice("angle", [0, 90, 180.0, -90, 45.5, -1, -2, -1.0, -2.0, 359.99, 720])
    if name == "sigma":
        return vc.choice("sigma", [None, 1e-9, 2e-9])
    return number(vc, name)


def kwargs_for(vc, cls, depth=1):
    args, kw = [], {}
    sig = inspect.signature(cls)
    name = cls.__name__
    if name == "NumericalPulse" or "weights_a" in sig.parameters:
        n = vc.length("samples", 1, 4)
    for k, p in sig.parameters.items():
        if p.kind is p.VAR_POSITIONAL:
            args = ["q0"] if vc.bool("one") else ["q0", "q1"]
        elif p.kind is p.VAR_KEYWORD:
            if vc.bool("overrides"):
                kw[vc.choice("override", ["duration", "amp180", "clock"])] = vc.choice("ov", [-1, -2, 1e-6, "a"])
        elif k in ("samples", "weights_a", "weights_b"):
            kw[k] = samples(vc, n)
        elif k == "t_samples":
            kw[k] = [i * 1e-9 for i in range(n)] if vc.bool("list") else np.arange(n) * vc.choice("step", [1e-9, 2e-9])
        elif p.default is not p.empty and vc.bool("default"):
            continue
        else:
            kw[k] = argument(vc, cls, k, p, depth)
    if name == "PulseCompensation":
        kw.pop("qubits", None)
        if vc.bool("gate-level"):
            kw = {"body": kw["body"], "qubits": ["q0"]}
        else:
            kw.update(max_compensation_amp={"q0:mw": vc.choice("max", [0.5, 0.25])}, time_grid=vc.choice("grid", [1e-9, 4e-9]),
                      sampling_rate=1e9)
    return args, kw


def operation(vc, depth=1, cls=None):
    """(operation, its class, the arguments)"""
    from quantify_scheduler.backends.qblox import operations as qo

    cs = classes()
    if cls is None:
        extra = ["stitched", "long"]
        if depth <= 0:
            cs = [c for c in cs if "body" not in inspect.signature(c).parameters]
        cls = vc.choice("class", cs + extra)
    if cls == "stitched" or cls == "long":
        from quantify_scheduler.operations import pulse_library as pl

        kw = {"port": vc.choice("port", ["q0:mw", "q1:mw"]), "clock": vc.choice("clock", ["q0.01", "q0.12"])}
        if cls == "long":
            kw.update(amp=vc.choice("amp", [0.5, -0.25]), duration=vc.choice("dur", [1e-6, 2e-6]))
            return qo.long_square_pulse(**kw), cls, ([], kw)
        b = qo.StitchedPulseBuilder(**kw)
        kw = dict(kw, amp=vc.choice("amp", [0.5, -0.25]), off=vc.choice("off", [0, 0.25]), dur=vc.choice("dur", TIMES[3:6]))
        b.add_pulse(pl.SquarePulse(amp=kw["amp"], duration=kw["dur"], port=kw["port"], clock=kw["clock"]))
        if kw["off"]:
            b.add_voltage_offset(path_I=kw["off"], path_Q=0.0, duration=kw["dur"])
        return b.build(), cls, ([], kw)
    for _ in range(10):
        args, kw = kwargs_for(vc, cls, depth)
        try:
            return cls(*args, **kw), cls, (args, kw)
        except (ValueError, NotImplementedError):  # arguments that do not go together
            continue
    from quantify_scheduler.operations.pulse_library import IdlePulse

    return IdlePulse(1e-6), IdlePulse, ([], {"duration": 1e-6})


def neighbour(vc, cls, args, kw):
    """an operation that differs in at most one argument"""
    for _ in range(5):
        k = vc.choice("argument", sorted(kw)) if kw else None
        kw2 = kwargs_for(vc, cls)[1]
        try:
            return cls(*args, **{**kw, **({k: kw2[k]} if k in kw2 else {})})
        except (ValueError, NotImplementedError):
            continue
    return cls(*args, **kw)


def schedule(vc, depth=1, n=(0, 4), ops=None):
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource

    s = Schedule(vc.choice("name", ["s", "inner"]), repetitions=vc.length("repetitions", 1, 3))
    if vc.bool("clock resource"):
        s.add_resource(ClockResource("q0.01", vc.choice("freq", [5e9, 5.1e9])))
    labels = []
    for i in range(vc.length("operations", *n)):
        k = vc.choice("kind", ["op", "op", "op", "schedule"] if depth > 0 else ["op"])
        o = schedule(vc, depth - 1) if k == "schedule" else operation(vc, depth)[0]
        if ops is not None:
            ops.append(o)
        kw = {}
        if labels and vc.bool("reference"):
            kw["ref_op"] = vc.choice("ref", labels)
        if vc.bool("points"):
            kw["ref_pt"] = vc.choice("pt", ["start", "center", "end", None])
            kw["ref_pt_new"] = vc.choice("pt new", ["start", "center", "end", None])
        sc = s.add(o, rel_time=vc.choice("rel", TIMES), label=f"op{i}" if vc.bool("label") else None, **kw)
        if labels and vc.bool("second constraint"):
            sc.add_timing_constraint(rel_time=vc.choice("rel2", TIMES), ref_schedulable=vc.choice("ref2", labels), ref_pt="start")
        labels.append(sc["name"])
    return s


PLAIN = []  # not empty: data classes are compared as dictionaries


def plain(x):
    """the content with data classes as dictionaries"""
    PLAIN.append(1)
    try:
        return content(x)
    finally:
        PLAIN.pop()


def key(k):
    """a key of a dictionary; strings of any class are strings"""
    return repr(str.__str__(k) if isinstance(k, str) else k)


# whether the names of waveforms and weights, which only identify them within a process, are left out
NAMELESS = False


def content(x, arrays=False):
    """what an object says, in a form in which equal things are equal: numbers by value, any sequence as a tuple
    (arrays apart from other sequences, if asked for)"""
    from quantify_scheduler.operations.operation import Operation
    from quantify_scheduler.resources import Resource
    from quantify_scheduler.schedules.schedule import Schedulable, ScheduleBase, TimingConstraint

    if isinstance(x, type):
        return ("type", x.__module__, x.__qualname__)
    if isinstance(x, (Operation, ScheduleBase, Resource, Schedulable)):
        derived = ("data", "_hardware_timing_table", "_hardware_waveform_dict") + (("_duration",) if "_name" not in vars(x) else ())
        own = {k: v for k, v in vars(x).items() if k not in derived}
        return ("object", type(x).__module__, type(x).__qualname__, content(dict(x.data), arrays), content(own, arrays))
    if isinstance(x, TimingConstraint):
        return ("constraint", content(x.data, arrays))
    if NAMELESS and isinstance(x, Mapping) and x and all(isinstance(v, Mapping) and set(v) == {"data", "index"} for v in x.values()):
        x = {v["index"]: v for v in x.values()}
    if isinstance(x, Mapping):
        return ("dict", tuple(sorted(((key(k), content(v, arrays)) for k, v in x.items()), key=lambda kv: kv[0])))
    if arrays and isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, np.ndarray):
        return ("seq", tuple(content(v, arrays) for v in x)) if x.ndim else content(x.item(), arrays)
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(content(v, arrays) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((content(v, arrays) for v in x), key=repr)))
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float) and math.isnan(x):
        return ("nan",)
    if isinstance(x, (bool, int, float, complex)):
        return ("number", x)
    if PLAIN and hasattr(x, "__dataclass_fields__"):
        return content({k: getattr(x, k) for k in x.__dataclass_fields__}, arrays)
    if hasattr(x, "__dataclass_fields__"):
        return ("dataclass", type(x).__qualname__, tuple((k, content(getattr(x, k), arrays)) for k in sorted(x.__dataclass_fields__)))
    if hasattr(x, "model_dump"):
        return ("model", type(x).__qualname__, content({k: getattr(x, k) for k in type(x).model_fields}))
    if x is None or isinstance(x, str):
        return ("text", None if x is None else x.value if isinstance(x, enum.Enum) else str(x))
    if isinstance(x, __import__("networkx").Graph):
        return ("graph", content(list(x.nodes(data=True)), arrays), content(list(x.edges(data=True)), arrays))
    if isinstance(x, __import__("pandas").DataFrame):
        return ("frame", content(x.to_dict("list")))
    return ("repr", type(x).__qualname__, repr(x))


def where(a, b, path=""):
    """the first difference between two contents"""
    if type(a) is tuple and type(b) is tuple and a and b and a[0] == b[0] == "dict":
        da, db = dict(a[1]), dict(b[1])
        for k in da.keys() | db.keys():
            if da.get(k) != db.get(k):
                return where(da.get(k), db.get(k), f"{path}.{k}")
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}/{i}" if not (a[0] in ("object", "seq", "dict")) else path)
    return f"{path}: {str(a)[:200]} | {str(b)[:200]}"
