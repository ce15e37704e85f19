"""C13: serialising and deserialising gives back an equal object."""

import json

from engine.core import unit
from engine.rt import LoopSpec
from vlib import qops
from vlib.qprop import Case

J = "quantify_scheduler.json_utils"
O = "quantify_scheduler.operations.operation"
S = "quantify_scheduler.schedules.schedule"
D = "quantify_scheduler.device_under_test"


def show(x):
    try:
        return str(x)[:300]
    except Exception as e:
        return f"? {e!r}"


def through_json(x):
    from quantify_scheduler.json_utils import SchedulerJSONDecoder, SchedulerJSONEncoder

    return json.loads(json.dumps(x, cls=SchedulerJSONEncoder), cls=SchedulerJSONDecoder)


def through_pickle(x):
    import pickle

    return pickle.loads(pickle.dumps(x))


def duration(x):
    try:
        return x.duration
    except TypeError:  # a loop of a schedule whose timing has not been determined
        return None


def equal(vc, what, a, b):
    ca, cb = qops.content(a), qops.content(b)
    vc.prove(f"{what} gives an object of the same type", type(a) is type(b), (type(a), type(b)))
    vc.prove(f"{what} gives an object with the same content", ca == cb, ca != cb and qops.where(ca, cb))
    vc.prove(f"{what} gives an equal object", a == b and b == a, show(a))
    vc.prove(f"{what} gives an object with the same duration", duration(a) == duration(b))


TARGETS = [f"{J}:SchedulerJSONEncoder.default", f"{J}:SchedulerJSONDecoder.decode_dict", f"{O}:Operation.__getstate__",
           f"{O}:Operation.__setstate__", f"{O}:Operation._update"]


@unit("C13.operations", "C13", modes=("fuzz",), fuzz=2500, shards=4, targets=TARGETS)
def operations(vc):
    """an operation of any kind, through JSON, pickle and copying"""
    import copy

    op = qops.operation(vc)[0]
    for what, f in (("json", through_json), ("pickle", through_pickle), ("copying", copy.deepcopy)):
        o = vc.run(f, op)
        vc.prove(f"{what} accepts every operation", o.ok, (type(op).__name__, repr(o.exc)))
        if o.ok:
            equal(vc, what, op, o.value)
            if hasattr(op, "hash"):
                vc.prove(f"{what} keeps the identity", op.hash == o.value.hash, show(op))


@unit("C13.restored", "C13", fuzz=300, targets=[f"{O}:Operation.__setstate__", f"{O}:Operation._update", f"{O}:Operation.__getstate__"])
def restored(vc):
    """an operation that is restored from its state has that state, and lasts until the end of the last of its pulses and acquisitions,
    for any number of them"""
    from quantify_scheduler.operations.operation import Operation

    def infos(name):
        make = lambda i, nm: {"t0": vc.real(f"{nm}.t0", 0, 1), "duration": vc.real(f"{nm}.duration", 0, 1)}
        return vc.seq(name, make, spec=LoopSpec(lambda st, k: [])) if vc.symbolic else vc.seq(name, make, 0, 4)

    pulses, acqs = infos("pulses"), infos("acquisitions")
    data = {"name": "x", "gate_info": {}, "pulse_info": pulses, "acquisition_info": acqs, "logic_info": {}}
    a = object.__new__(Operation)
    a.data = data
    state = vc.run(vc.fn(f"{O}:Operation.__getstate__"), a).value
    vc.prove("the state has the class and the data", state["data"] is data and state["deserialization_type"] == f"{O}.Operation")
    b = object.__new__(Operation)
    o = vc.run(vc.fn(f"{O}:Operation.__setstate__"), b, state)
    vc.prove("it is restored", o.ok, repr(o.exc))
    vc.prove("it has the data", b.data["pulse_info"] is pulses and b.data["acquisition_info"] is acqs and b.data["name"] == "x"
             and b.data["gate_info"] == {} and b.data["logic_info"] == {})
    d = b._duration
    end = lambda x: x["t0"] + x["duration"]
    if not vc.symbolic:
        vc.prove("it lasts as long as its pulses and acquisitions", d == max(map(end, pulses + acqs), default=0))
        return
    j = vc.int("j", 0)
    for s in (pulses, acqs):
        if bool(j < s.n):
            vc.prove("it does not end before a pulse or acquisition", d >= end(s.at(j)))
    if not bool(vc.Or(pulses.n > 0, acqs.n > 0)):
        vc.prove("it lasts no time without pulses and acquisitions", vc.eq(d, 0))
    else:
        bound = vc.real("bound")
        for s in (pulses, acqs):
            s.forall(lambda i, s=s: bool(end(s.at(i)) <= bound))
        vc.prove("it ends with the last pulse or acquisition", d <= bound)


@unit("C13.schedules", "C13", modes=("fuzz",), fuzz=800, shards=4,
      targets=TARGETS + [f"{S}:ScheduleBase.__getstate__", f"{S}:ScheduleBase.__setstate__", f"{S}:Schedulable.__setstate__"])
def schedules(vc):
    """schedules with nested schedules, resources and references between operations"""
    import copy

    timing = vc.fn("quantify_scheduler.compilation:_determine_absolute_timing")

    def times(x):
        return [y.get("abs_time") for y in timing(x, "ideal").schedulables.values()]

    s = qops.schedule(vc, depth=2)
    timed = vc.bool("timed")
    if timed:
        for op in s.operations.values():
            if vc.bool("delays the next operation"):
                op.data["next_operation_delay"] = vc.length("delay", -20, 20) * 4e-9
        timed = vc.run(times, s).ok
    for what, f in (("json", lambda x: type(x).from_json(x.to_json())), ("a dictionary", lambda x: type(x).from_dict(x.to_dict())),
                    ("pickle", through_pickle), ("copying", copy.deepcopy)):
        o = vc.run(f, s)
        vc.prove(f"{what} accepts every schedule", o.ok, repr(o.exc))
        if o.ok:
            equal(vc, what, s, o.value)
            vc.prove(f"{what} keeps the order", list(s.schedulables) == list(o.value.schedulables))
            vc.prove(f"{what} keeps the resources", {k: (type(r), r) for k, r in s.resources.items()} == {
                k: (type(r), r) for k, r in o.value.resources.items()})
            if timed:
                t, u = times(copy.deepcopy(s)), vc.run(times, o.value)
                vc.prove(f"after {what} the timing is the same", u.ok and t == u.value, (t, u))


@unit("C13.values", "C13", modes=("fuzz",), fuzz=2000, targets=[f"{J}:SchedulerJSONEncoder.default", f"{J}:SchedulerJSONDecoder.decode_dict"])
def values(vc):
    """nested data with numbers of every Python and numpy type, arrays of every type and shape, enumerations and classes"""
    import numpy as np
    from quantify_scheduler import enums

    def gen(depth):
        k = vc.choice("kind", ["number", "numpy", "complex", "text", "none", "enum", "type"] + (
            ["dict", "list", "array", "array"] if depth else []))
        if k == "number":
            return qops.number(vc)
        if k == "numpy":
            t = vc.choice("type", [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float16, np.float32,
                                   np.float64, np.bool_, np.complex64, np.complex128, np.str_])
            return t(vc.choice("x", [0, 1, 5, 100]) if np.issubdtype(t, np.integer) else vc.choice("x", [0, 1, -0.5, 0.1]))
        if k == "complex":
            return vc.choice("c", qops.COMPLEX)
        if k == "text":
            return vc.choice("t", ["", "a", "0", "null", "é\n\"", "deserialization_type"])
        if k == "none":
            return None
        if k == "enum":
            return vc.choice("e", [*enums.BinMode, *enums.TimeRef, *enums.TimeSource, *enums.TriggerCondition])
        if k == "type":
            return vc.choice("c", [float, int, complex, str, bool, np.ndarray])
        if k == "list":
            return [gen(depth - 1) for _ in range(vc.length("n", 0, 3))]
        if k == "array":
            shape = vc.choice("shape", [(3,), (1,), (2, 2), (0,), (2, 3, 1)])
            x = np.array([vc.choice("x", [0, 1, 2, -1, 0.5]) for _ in range(int(np.prod(shape)))]).reshape(shape)
            x = x.astype(vc.choice("dtype", ["int64", "float64", "float32", "complex128", "complex64", "int32", "bool", "int16", "uint32"]))
            return x[::-1] if vc.bool("reversed") else x
        return {vc.choice("key", ["a", "b", "data", "mode"]): gen(depth - 1) for _ in range(vc.length("n", 0, 3))}

    a = gen(2)
    o = vc.run(through_json, a)
    vc.prove("json accepts every value", o.ok, (a, repr(o.exc)))
    if o.ok:
        ca, cb = qops.content(a, True), qops.content(o.value, True)
        vc.prove("json gives back the same value", ca == cb, ca != cb and qops.where(ca, cb))


def mapping_apart(x):
    """compiled instructions without the retrieval mappings of the modules, and those mappings"""
    maps = {}

    def go(y, path):
        if not isinstance(y, dict):
            return y
        if "acq_hardware_mapping" in y:
            maps[path] = y["acq_hardware_mapping"]
        return {k: go(v, f"{path}.{k}") for k, v in y.items() if k != "acq_hardware_mapping"}

    return go(dict(x), ""), maps


def by_text(x):
    """the same with every key of a dictionary as a text"""
    x = vars(x) if hasattr(x, "__dataclass_fields__") else x
    return {str(k): by_text(v) for k, v in x.items()} if isinstance(x, dict) else x


@unit("C13.compiled", "C13", modes=("fuzz",), fuzz=100, shards=4, budget=100,
      targets=TARGETS + [f"{S}:CompiledSchedule.__getstate__", f"{S}:CompiledSchedule.__setstate__"])
def compiled(vc):
    """a schedule that made the round trip compiles to the same programs, and a compiled schedule can make the round trip itself"""
    import copy

    from quantify_scheduler import Schedule
    from vlib import qhw, qprop
    from vlib.qgen import ACQ_KINDS

    more = {}
    if vc.bool("acquisitions"):
        more = dict(kinds=("anyacq", "anyacq", "pulse", "nested"), ports=[*ACQ_KINDS, ("q0:mw", "q0.01")], max_slots=4, big=False, long_ok=False,
                    min_slot=12, reps=(1, 4))
    c = Case(vc, must_compile=False, **more)
    if c.compiled is None:
        return
    for what, f in (("json", lambda x: type(x).from_json(x.to_json())), ("pickle", through_pickle), ("copying", copy.deepcopy)):
        o = vc.run(f, c.compiled)
        vc.prove(f"{what} accepts every compiled schedule", o.ok, repr(o.exc))
        if o.ok:
            (ca, ma), (cb, mb) = (mapping_apart(x.compiled_instructions) for x in (c.compiled, o.value))
            ca, cb = qops.plain(ca), qops.plain(cb)
            vc.prove(f"{what} keeps the compiled instructions", ca == cb, ca != cb and qops.where(ca, cb))
            if what == "json":
                ma, mb = by_text(ma), by_text(mb)
            vc.prove(f"{what} keeps where the acquisitions are", ma == mb, (ma, mb))
            ca, cb = (qops.plain({k: v for k, v in x.data.items() if k != "compiled_instructions"}) for x in (c.compiled, o.value))
            vc.prove(f"{what} keeps everything else", ca == cb, ca != cb and qops.where(ca, cb))
    again = vc.run(qhw.compile_, Schedule.from_json(c.sched.to_json()), None, config_=qprop.config())
    vc.prove("what made the round trip still compiles", again.ok, repr(again.exc))
    if again.ok:
        ca, cb = (qops.plain(x.compiled_instructions) for x in (c.compiled, again.value))
        vc.prove("what made the round trip compiles to the same", ca == cb, ca != cb and qops.where(ca, cb))


@unit("C13.retrieval", "C13", modes=("fuzz",), fuzz=1, targets=[f"{S}:CompiledSchedule.__setstate__"])
def retrieval(vc):
    """the mapping by which the acquisitions of a compiled schedule are found, for the acquisition channel 3, through JSON"""
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    from quantify_scheduler.operations.pulse_library import IdlePulse
    from vlib import qhw, qprop

    s = qhw.new_schedule()
    s.add(SSBIntegrationComplex(duration=1e-6, port="q0:res", clock="q0.ro", acq_channel=3, acq_index=0))
    s.add(IdlePulse(1e-6))
    c = qhw.compile_(s, None, config_=qprop.config())
    ma, mb = (list(mapping_apart(x.compiled_instructions)[1].values())[0]["seq0"] for x in (c, type(c).from_json(c.to_json())))
    what = [f"{list(m)} of {[type(x).__name__ for m2 in m.values() for x in m2.values()]}" for m in (ma, mb)]
    vc.prove("json keeps what the retrieval mapping consists of", what[0] == what[1], " | ".join(what))


def fill(vc, element):
    """random values for the parameters of a device element or edge, within what they accept"""
    import numpy as np
    from qcodes import validators as v
    from quantify_scheduler.enums import TimeRef, TimeSource

    def walk(s):
        for p in s.parameters.values():
            if p.name == "IDN" or not vc.bool("set"):
                continue
            val = p.vals
            if isinstance(val, v.Enum):
                x = vc.choice("enum", sorted(val.values))
            elif isinstance(val, v.Bool):
                x = vc.bool("value")
            elif isinstance(val, v.Ints):
                x = vc.choice("int", [1, 2, 7])
            elif isinstance(val, v.Arrays):
                x = np.array([vc.choice("x", [0.5, -0.25, 1.0]) for _ in range(vc.length("n", 0, 3))])
            elif isinstance(val, v.Strings):
                x = vc.choice("text", ["q9:mw", "r", "a b"])
            elif isinstance(val, v.Numbers):
                lo, hi = max(val._min_value, -10), min(val._max_value, 10)
                x = vc.choice("number", [lo, hi, vc.real("x", lo, hi), int(hi), np.float64(hi), float("nan")])
                if x != x and not getattr(val, "_allow_nan", False):
                    x = lo
            elif p.name in ("time_source", "time_ref"):
                x = vc.choice("enum", list(TimeSource if p.name == "time_source" else TimeRef))
            elif p.name == "acq_channel":
                x = vc.choice("channel", [0, 3, "a", "q0 channel"])
            elif isinstance(p(), str):
                x = vc.choice("text", ["q9:mw", "a b"])
            else:
                x = vc.choice("number", [0, 0.5, -90, 1e-3])
            p(x)
        for sub in s.submodules.values():
            walk(sub)

    for sub in element.submodules.values():
        walk(sub)


def state(x):
    out = {p: qops.content(q()) for p, q in x.parameters.items() if p != "IDN"}
    # (see C13.magnitudes)
    return {**out, **{n: state(s) for n, s in x.submodules.items() if n != "reference_magnitude"}}


ELEMENTS = ["transmon_element.BasicTransmonElement", "nv_element.BasicElectronicNVElement", "spin_element.BasicSpinElement",
            "spin_element.ChargeSensor"]


@unit("C13.magnitudes", "C13", modes=("fuzz",), fuzz=1, targets=[f"{D}.device_element:DeviceElement.__json_getstate__", f"{D}.device_element:DeviceElement.__getstate__"])
def magnitudes(vc):
    """the reference magnitudes of the device elements, through JSON and YAML files"""
    import importlib
    import tempfile

    from qcodes import Instrument

    lost, kept = [], []
    for n in ELEMENTS:
        for form in ("json", "yaml"):
            Instrument.close_all()
            try:
                m, c = n.split(".")
                x = t = getattr(importlib.import_module(f"{D}.{m}"), c)
                x = t("q0")
                which = [k for k, s in x.submodules.items() if "reference_magnitude" in s.submodules]
                for k in which:
                    x.submodules[k].reference_magnitude.dBm(-10.0)
                with tempfile.TemporaryDirectory() as d:
                    f = x.to_yaml_file(d) if form == "yaml" else x.to_json_file(d)
                    Instrument.close_all()
                    y = t.from_yaml_file(f) if form == "yaml" else t.from_json_file(f)
                for k in which:
                    ok = y.submodules[k].reference_magnitude.dBm() == -10.0
                    (kept if ok else lost).append(f"{form} {c}.{k}")
            finally:
                Instrument.close_all()
    vc.prove("the reference magnitudes of an element are kept", not lost, " ".join(lost))


EDGES = ["composite_square_edge.CompositeSquareEdge", "spin_edge.SpinEdge"]


@unit("C13.elements", "C13", modes=("fuzz",), fuzz=300, shards=4, budget=60,
      targets=[f"{D}.device_element:DeviceElement.__json_getstate__", f"{D}.device_element:DeviceElement.__getstate__",
               f"{D}.edge:Edge.__json_getstate__", f"{D}.quantum_device:QuantumDevice.__json_getstate__",
               f"{D}.quantum_device:QuantumDevice.__json_setstate__"])
def elements(vc):
    """device elements, edges and devices with any parameters, through JSON and YAML files"""
    import importlib
    import os
    import tempfile

    from qcodes import Instrument
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice

    def cls(n):
        m, c = n.split(".")
        return getattr(importlib.import_module(f"{D}.{m}"), c)

    Instrument.close_all()
    try:
        made = []
        for i in range(vc.length("elements", 1, 3)):
            made.append(cls(vc.choice("element", ELEMENTS))(f"q{i}"))
        edges = [cls(vc.choice("edge", EDGES))("q0", "q1")] if len(made) > 1 and vc.bool("edge") else []
        for x in made + edges:
            fill(vc, x)
        what = vc.choice("what", ["element", "element", "device"])
        form = vc.choice("form", ["json", "json", "yaml", "dictionary"])
        if what == "device":
            x = QuantumDevice("dev")
            for e in made:
                x.add_element(e)
            for e in edges:
                x.add_edge(e)
            x.cfg_sched_repetitions(vc.length("repetitions", 1, 1000))
            states = {e.name: (type(e), state(e)) for e in made + edges}
            rep = x.cfg_sched_repetitions()
        else:
            x = vc.choice("which", made + edges)
            states = {x.name: (type(x), state(x))}
        with tempfile.TemporaryDirectory() as d:
            keep = type(x)
            o = vc.run({"yaml": lambda: x.to_yaml_file(d), "json": lambda: x.to_json_file(d), "dictionary": x.to_dict}[form])
            vc.prove("it can be serialised", o.ok, (form, repr(o.exc)[:300]))
            if not o.ok:
                return
            Instrument.close_all()
            o = vc.run({"yaml": keep.from_yaml_file, "json": keep.from_json_file, "dictionary": keep.from_dict}[form], o.value)
        vc.prove("what was serialised can be read", o.ok, (form, repr(o.exc)[:300]))
        if not o.ok:
            return
        y = o.value
        if what == "device":
            vc.prove("the device has the same elements and edges", sorted([*y.elements(), *y.edges()]) == sorted(states))
            vc.prove("the device has the same repetitions", y.cfg_sched_repetitions() == rep)
        for n, (t, s) in states.items():
            e = Instrument.find_instrument(n)
            vc.prove("the type is the same", type(e) is t, n)
            b = state(e)
            vc.prove("every parameter has its value", b == s, (form, n, diff(s, b)))
    finally:
        Instrument.close_all()


def diff(a, b, path=""):
    for k in a:
        if k not in b:
            return f"{path}.{k} missing"
        if a[k] != b[k]:
            return diff(a[k], b[k], f"{path}.{k}") if isinstance(a[k], dict) else f"{path}.{k}: {a[k]} | {b[k]}"


@unit("C13.structures", "C13", modes=("fuzz",), fuzz=200, budget=60,
      targets=["quantify_scheduler.structure.types", "quantify_scheduler.structure.model", f"{D}.quantum_device:QuantumDevice.generate_device_config"])
def structures(vc):
    """data structures with arrays and graphs, and device configurations generated from elements with any parameters (through
    dictionaries only), through the JSON and the dictionaries of pydantic"""
    import importlib

    import numpy as np
    from pydantic import create_model
    from qcodes import Instrument
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.structure.model import DataStructure
    from quantify_scheduler.structure.types import Graph, NDArray

    def same(what, a, eq, hows=("json", "a dictionary")):
        for how in hows:
            f = {"json": lambda x: type(x).model_validate_json(x.model_dump_json()), "a dictionary": lambda x: type(x).model_validate(x.model_dump())}[how]
            o = vc.run(f, a)
            vc.prove(f"{what} can be read from {how}", o.ok, repr(o.exc)[:500])
            if o.ok:
                vc.prove(f"{what} is the same through {how}", eq(a, o.value), (a, o.value))

    if vc.bool("array or graph"):
        shape = vc.choice("shape", [(3,), (1,), (2, 2), (0,), (2, 3, 1), ()])
        x = np.array([vc.choice("x", [0, 1, 2, -1, 0.5]) for _ in range(int(np.prod(shape)))]).reshape(shape)
        x = x.astype(vc.choice("dtype", ["int64", "float64", "float32", "complex128", "complex64", "int32", "bool", "int16", "uint32"]))
        x = x.T if vc.bool("transposed") else x[::-1] if shape and vc.bool("reversed") else x
        model = create_model("M", __base__=DataStructure, x=(NDArray, ...))
        same("an array", model(x=x), lambda a, b: a.x.dtype == b.x.dtype and a.x.shape == b.x.shape and a.x.tobytes() == b.x.tobytes())
        edges = [(f"cluster0.module{i}.real_output_0", vc.choice("port", ["q0:mw", "q0:fl", "q1:mw"])) for i in range(vc.length("edges", 0, 4))]
        model = create_model("M", __base__=DataStructure, x=(Graph, ...))
        same("a graph", model(x=edges), lambda a, b: type(b.x) is Graph and list(a.x.nodes) == list(b.x.nodes) and list(a.x.edges) == list(b.x.edges))
        return
    Instrument.close_all()
    try:
        dev = QuantumDevice("dev")
        for i in range(vc.length("elements", 1, 3)):
            m, c = vc.choice("element", ELEMENTS).split(".")
            e = getattr(importlib.import_module(f"{D}.{m}"), c)(f"q{i}")
            fill(vc, e)
            dev.add_element(e)
        o = vc.run(dev.generate_device_config)
        if o.ok:
            same("a device configuration", o.value, lambda a, b: qops.content(a.model_dump()) == qops.content(b.model_dump()),
                 ["a dictionary"])
    finally:
        Instrument.close_all()
