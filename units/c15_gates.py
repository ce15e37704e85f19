"""C15: gates become what the device configuration says."""
from __future__ import annotations

import warnings

from engine.core import Fake, unit

D = "quantify_scheduler.backends.circuit_to_device"
C = "quantify_scheduler.compilation"


@unit("C15.schedules", "C15", modes=("fuzz",), fuzz=500, shards=4, budget=100,
      targets=[D, f"{C}:_merge_rz_gates", "quantify_scheduler.operations.gate_library", "quantify_scheduler.operations.pulse_factories",
               "quantify_scheduler.operations.measurement_factories", "quantify_scheduler.operations.composite_factories",
               "quantify_scheduler.device_under_test.transmon_element", "quantify_scheduler.device_under_test.composite_square_edge"])
def schedules(vc):
    """schedules of gates on random devices become exactly the pulses, rotations and acquisitions their configuration asks for"""
    from qcodes import Instrument
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from vlib import qdev

    Instrument.close_all()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dev = qdev.Device(vc, vc.length("qubits", 1, 2))
            s, item = dev.body(vc.length("depth", 0, 2), "asap")
            o = vc.run(SerialCompiler("c").compile, s, dev.device.generate_compilation_config())
        vc.prove("it can be compiled", o.ok, repr(o.exc)[:500])
        if not o.ok:
            return
        qdev.compare(vc, list(qdev.loops(item)), list(qdev.flatten(o.value)))
    finally:
        Instrument.close_all()


G = "quantify_scheduler.operations.gate_library"
P = "quantify_scheduler.operations.pulse_factories"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"


@unit("C15.angle", "C15", targets=[f"{G}:_modulo_360_with_mapping"], fuzz=300, assumptions=[FLOAT])
def angle(vc):
    """an angle is mapped to the one in ]-180, 180] that differs by whole turns"""
    th = vc.real("theta", -5000, 5000) if not vc.symbolic else vc.real("theta")
    o = vc.run(vc.fn(f"{G}:_modulo_360_with_mapping"), th)
    vc.prove("any angle", o.ok, lambda: repr(o.exc))
    m = o.value
    vc.prove("in ]-180, 180]", vc.And(m > -180, m <= 180) if vc.symbolic else -180 - 1e-9 < m <= 180, lambda: f"{th}: {m}")
    turns = (m - th) / 360
    vc.prove("the same rotation", vc.eq(turns, vc.floor(turns)) if vc.symbolic else abs(turns - round(turns)) < 1e-9, lambda: f"{th}: {m}")




@unit("C15.factories", "C15", fuzz=400, assumptions=[FLOAT],
      targets=[f"{P}:{n}" for n in ("rxy_drag_pulse", "rxy_gauss_pulse", "rxy_pulse", "nv_spec_pulse_mw", "phase_shift", "composite_square_pulse")])
def factories(vc):
    """the pulse of a rotation: amplitude proportional to the angle, phase the axis; everything else as configured"""
    r = lambda n: vc.real(n, -10, 10) if not vc.symbolic else vc.real(n)
    d = vc.real("duration", 0, 1e-3)
    kw = dict(port="q:mw", clock="q.01", duration=d)
    k = vc.choice("factory", ["drag", "gauss", "rxy gauss", "rxy hermite", "spec square", "spec gauss", "spec hermite", "phase", "composite"])
    if k in ("drag", "gauss", "rxy gauss", "rxy hermite"):
        a, th, ph, s = r("amp180"), r("theta"), r("phi"), r("shape")
        amp = a * th / 180
        if k == "drag":
            o = vc.run(vc.fn(f"{P}:rxy_drag_pulse"), amp180=a, motzoi=s, theta=th, phi=ph, **kw)
            want = [("waveforms.drag", dict(G_amp=amp, D_amp=s, phase=ph, **kw))]
        elif k == "gauss":
            o = vc.run(vc.fn(f"{P}:rxy_gauss_pulse"), amp180=a, theta=th, phi=ph, **kw)
            want = [("waveforms.drag", dict(G_amp=amp, D_amp=0, phase=ph, **kw))]
        elif k == "rxy gauss":
            o = vc.run(vc.fn(f"{P}:rxy_pulse"), amp180=a, skewness=s, theta=th, phi=ph, pulse_shape="GaussPulse", **kw)
            want = [("waveforms.drag", dict(G_amp=amp, D_amp=0, phase=ph, **kw))]
        else:
            o = vc.run(vc.fn(f"{P}:rxy_pulse"), amp180=a, skewness=s, theta=th, phi=ph, pulse_shape="SkewedHermitePulse", **kw)
            want = [("waveforms.skewed_hermite", dict(amplitude=amp, skewness=s, phase=ph, **kw))]
    elif k.startswith("spec"):
        a = r("amplitude")
        shape, wf, f = {"square": ("SquarePulse", "waveforms.square", dict(amp=a)),
                        "gauss": ("GaussPulse", "waveforms.drag", dict(G_amp=a, D_amp=0, phase=0)),
                        "hermite": ("SkewedHermitePulse", "waveforms.skewed_hermite", dict(amplitude=a, skewness=0, phase=0))}[k[5:]]
        o = vc.run(vc.fn(f"{P}:nv_spec_pulse_mw"), amplitude=a, pulse_shape=shape, **kw)
        want = [(wf, {**f, **kw})]
    elif k == "phase":
        th = r("theta")
        o = vc.run(vc.fn(f"{P}:phase_shift"), theta=th, clock="q.01")
        want = [(None, dict(phase_shift=th, clock="q.01", duration=0, t0=0))]
    else:
        a, x, y, t0 = r("amp"), r("parent"), r("child"), vc.real("t0", 0, 1e-3)
        o = vc.run(vc.fn(f"{P}:composite_square_pulse"), square_amp=a, square_duration=d, square_port="q:fl", square_clock="cl0.baseband",
                   virt_z_parent_qubit_phase=x, virt_z_parent_qubit_clock="p.01", virt_z_child_qubit_phase=y, virt_z_child_qubit_clock="c.01", t0=t0)
        want = [("waveforms.square", dict(amp=a, duration=d, port="q:fl", clock="cl0.baseband", t0=t0)),
                (None, dict(phase_shift=x, clock="p.01", t0=t0)), (None, dict(phase_shift=y, clock="c.01", t0=t0))]
    vc.prove("there is a pulse for any configuration", o.ok, lambda: repr(o.exc))
    have = o.value.data["pulse_info"]
    vc.prove("as many parts as there should be", len(have) == len(want) and not o.value.data["acquisition_info"], lambda: repr(have))
    for (wf, fields), p in zip(want, have):
        vc.prove(f"{k}: waveform", p["wf_func"] == (wf and "quantify_scheduler." + wf), lambda: repr(p))
        for n, v in fields.items():
            vc.prove(f"{k}: {n}", p[n] == v if isinstance(v, str) else vc.eq(p[n], v, rel=1e-12, abs=1e-15), lambda: f"{p[n]} != {v}")


@unit("C15.initialisation", "C15", fuzz=200, assumptions=[FLOAT], targets=[f"{P}:spin_init_pulse"])
def initialisation(vc):
    """the pulses of a spin initialisation: two square pulses together, then the two ramps, apart by what is asked for"""
    r = lambda n: vc.real(n, -10, 10) if not vc.symbolic else vc.real(n)
    d, diff = vc.real("duration", 0, 1e-3), vc.real("diff", -1e-3, 1e-3)
    f = {w: {n: r(f"{w} {n}") for n in ("square_amp", "ramp_amp", "ramp_rate")} for w in ("parent", "child")}
    for w in f:
        vc.assume(f[w]["ramp_rate"] != 0)
        vc.assume(f[w]["ramp_amp"] / f[w]["ramp_rate"] >= 0)
    o = vc.run(vc.fn(f"{P}:spin_init_pulse"), square_duration=d, ramp_diff=diff, **{f"{w}_{n}": v for w in f for n, v in f[w].items()},
               **{f"{w}_{n}": f"{w}{n}" for w in f for n in ("port", "clock")})
    vc.prove("any configuration", o.ok, lambda: repr(o.exc))
    s = o.value
    t = vc.run(vc.fn(f"{C}:_determine_absolute_timing"), s, "physical")
    vc.prove("it can be timed", t.ok, lambda: repr(t.exc))
    have = [(x["abs_time"], s.operations[x["operation_id"]].data["pulse_info"]) for x in t.value.schedulables.values()]
    later = lambda x: vc.ite(x > 0, x, 0) if vc.symbolic else max(x, 0)
    want = [(0, "square", "parent", f["parent"]["square_amp"], d), (0, "square", "child", f["child"]["square_amp"], d),
            (d + later(-diff), "ramp", "parent", f["parent"]["ramp_amp"], f["parent"]["ramp_amp"] / f["parent"]["ramp_rate"]),
            (d + later(diff), "ramp", "child", f["child"]["ramp_amp"], f["child"]["ramp_amp"] / f["child"]["ramp_rate"])]
    vc.prove("four pulses", len(have) == 4 and all(len(p) == 1 for _, p in have), lambda: repr(have))
    for (time, wf, w, amp, dur), (at, (p,)) in zip(want, have):
        n = f"{w} {wf}"
        vc.prove(f"{n}: kind", p["wf_func"] == f"quantify_scheduler.waveforms.{wf}" and p["port"] == f"{w}port" and p["clock"] == f"{w}clock")
        vc.prove(f"{n}: time", vc.eq(at + p["t0"], time, abs=1e-15), lambda: f"{at} != {time}")
        vc.prove(f"{n}: amplitude", vc.eq(p["amp"], amp, rel=1e-12))
        vc.prove(f"{n}: duration", vc.eq(p["duration"], dur, rel=1e-12))


class Config(Fake):
    """stand-in for an OperationCompilationConfig: a factory, its arguments, and which come from the gate"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


@unit("C15.configuration", "C15", fuzz=200, targets=[f"{D}:_get_device_repr_from_cfg", f"{D}:_get_device_repr_from_cfg_multiplexed"])
def configuration(vc):
    """the factory of the configuration gets its arguments: those of the gate go before those of the configuration, and overrides before both"""
    from quantify_scheduler.operations.gate_library import Measure, Reset

    names = ["acq_delay", "a", "b", "c"]
    cfg = {n: vc.real(f"configured {n}") if vc.symbolic else vc.real(f"configured {n}", -1, 1) for n in names}
    from_gate = {n: vc.real(f"gate {n}") if vc.symbolic else vc.real(f"gate {n}", -1, 1) for n in ("b", "c", "d") if vc.bool(f"{n} from the gate")}
    overrides = {n: vc.real(f"override {n}") if vc.symbolic else vc.real(f"override {n}", -1, 1)
                 for n in ("acq_delay", "a", "b", "d", "unknown") if n == "unknown" or vc.bool(f"{n} overridden")}
    kind = vc.choice("gate", ["reset", "measure", "measure without delay"])
    several = vc.bool("several elements")
    seen = []
    c = Config(factory_func=lambda **kw: seen.append(kw) or "made", factory_kwargs=dict(cfg),
               gate_info_factory_kwargs=list(from_gate) if from_gate or kind == "reset" else None)
    op = object.__new__(Reset if kind == "reset" else Measure)
    op.data = {"gate_info": dict(from_gate)}
    if kind != "reset":
        op.data["gate_info"]["apply_acquisition_delay"] = kind == "measure"
    i = 0
    if several:
        i, per = vc.choice("element", [(0, "bcd"), (1, "bd"), (2, "c"), (1, "")])
        for n in from_gate:
            if n in per:
                op.data["gate_info"][n] = {"b": list, "c": tuple, "d": tuple}[n]([from_gate[n] + k - i for k in range(3)])
        given = dict(overrides)
        o = vc.run(vc.fn(f"{D}:_get_device_repr_from_cfg_multiplexed"), op, c, i, overrides)
    else:
        given = dict(overrides)
        o = vc.run(vc.fn(f"{D}:_get_device_repr_from_cfg"), op, c, overrides)
    vc.prove("the factory makes it", o.ok and o.value == "made" and len(seen) == 1, lambda: repr(o))
    want = {**cfg, **from_gate}
    want.update({n: v for n, v in given.items() if n in want})
    if kind == "measure without delay":
        want["next_operation_delay"] = -want["acq_delay"]
    got = seen[0]
    vc.prove("the arguments it should have", sorted(got) == sorted(want), lambda: f"{sorted(got)} != {sorted(want)}")
    for n in sorted(want):
        vc.prove(f"argument {n}", vc.eq(got[n], want[n], abs=1e-12), lambda: f"{got[n]} != {want[n]}")
    vc.prove("the configuration stays as it was", sorted(c.factory_kwargs) == sorted(cfg) and len(overrides) == len(given))
    for n in cfg:
        vc.prove("the configuration stays as it was", vc.eq(c.factory_kwargs[n], cfg[n]))


@unit("C15.merging", "C15", modes=("bounded", "fuzz"), bounded={"len": 3, "max_paths": 4000}, fuzz=400, budget=150,
      targets=[f"{C}:_merge_rz_gates"], assumptions=[FLOAT, "hash() of symbolic operation content identifies the term (C14 decides hashing itself)"])
def merging(vc):
    """merging rotations around z leaves the phase of every qubit at every other operation, and all times, as they were"""
    from copy import deepcopy

    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.gate_library import Rz
    from quantify_scheduler.operations.pulse_library import IdlePulse, ShiftClockPhase
    from units.c01_timing import config

    strategy = vc.choice("strategy", ["asap", "alap"])
    q0, q1 = "q10", "q1"  # a name can be part of another one
    if not vc.symbolic and vc.bool("swap"):
        q0, q1 = q1, q0
    s = Schedule("s")
    n = vc.length("schedulables", 2, 3 if vc.symbolic else 6)
    ops, names = [], []
    for i in range(n):
        k = vc.choice("operation", ["z0", "other"] + (["z1", "z0'"] if i == 1 or not vc.symbolic else []) + [f"again{j}" for j in range(i)])
        if k.startswith("again"):
            op = ops[int(k[5:])]
        elif k == "other":
            op = IdlePulse(0)
            op.data["pulse_info"][0]["duration"] = vc.real("idle", 0, 1)
            op.data["name"] = f"other{i}"
            op._update()
        else:
            op = Rz(10.0 + i, q0)
            op.data["gate_info"]["theta"] = vc.real("theta") if vc.symbolic else vc.real("theta", -700, 700)
            op.data["gate_info"]["device_elements"] = [q1 if k == "z1" else q0]
            op.data["gate_info"]["device_overrides"] = {"clock": "other"} if k == "z0'" else {}
        ops.append(op)
        kw = {}
        t = vc.choice("timing", ["default", "rel", "first", "explicit"] if i and strategy == "asap" else ["default", "rel"])
        if t == "rel":
            kw["rel_time"] = vc.real("rel", -1, 1)
        elif t == "first":
            kw["ref_op"] = names[0]
        elif t == "explicit":
            kw.update(ref_op=names[-1], ref_pt="end", ref_pt_new="start")
        names.append(s.add(op, label=f"l{i}", **kw))

    def story(sched):
        for op in sched.operations.values():
            if isinstance(op, Rz):
                op.data["pulse_info"] = ShiftClockPhase(phase_shift=0, clock="q").data["pulse_info"]
        o = vc.run(vc.fn(f"{C}:_determine_absolute_timing"), sched, "physical", config(strategy))
        vc.prove("it can be timed", o.ok, lambda: repr(o.exc))
        return [(x["abs_time"], o.value.operations[x["operation_id"]]) for x in o.value.schedulables.values()]

    before = story(deepcopy(s))
    o = vc.run(vc.fn(f"{C}:_merge_rz_gates"), s, config(strategy))
    vc.prove("any schedule", o.ok, lambda: repr(o.exc))
    after = story(o.value)
    vc.prove("the same schedulables", len(after) == len(before))
    for (t, _), (u, _) in zip(before, after):
        vc.prove("at the same times", vc.eq(t, u, abs=1e-12))

    def phase(st, j, q):
        tot = 0
        for i, (t, op) in enumerate(st):
            if isinstance(op, Rz) and (op.qubit, sorted(op.data["gate_info"]["device_overrides"])) == q:
                if j is None:
                    tot = tot + op.theta
                else:
                    c = vc.Or(t < st[j][0], vc.And(t == st[j][0], i < j)) if vc.symbolic else t < st[j][0] - 1e-12 or (abs(t - st[j][0]) < 1e-12 and i < j)
                    tot = tot + vc.ite(c, op.theta, 0)
        return tot

    for q in [(q0, []), (q1, []), (q0, ["clock"])]:
        for j in [None, *range(n)]:
            if j is None or not isinstance(before[j][1], Rz):
                vc.prove("the rotation up to every operation", vc.eq(phase(before, j, q), phase(after, j, q), abs=1e-7),
                         lambda: f"{q} {j}: {before} {after}")
    for j in range(n):
        if not isinstance(before[j][1], Rz):
            vc.prove("everything else is as it was", type(after[j][1]) is type(before[j][1]) and after[j][1].data["name"] == before[j][1].data["name"])


@unit("C15.clocks", "C15", modes=("fuzz",), fuzz=500, budget=60,
      targets=[f"{D}:set_pulse_and_acquisition_clock", f"{D}:_extract_clock_freqs", f"{D}:_set_pulse_and_acquisition_clock",
               f"{D}:_valid_clock_in_schedule", f"{D}:_clocks_compatible"])
def clocks(vc):
    """every clock that is used gets the frequency of the schedule, or else that of the device; there is never more than one frequency"""
    import math
    from types import SimpleNamespace

    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.backends.graph_compilation import DeviceCompilationConfig
    from quantify_scheduler.operations import acquisition_library as al
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation

    names = ["a", "b", "c"]
    freq = {n: vc.choice(f"{n} on the device", [None, float("nan"), 1e9, 2e9]) for n in names}
    freq = {n: f for n, f in freq.items() if f is not None}
    used, given = [], []  # (schedule, clock), (schedule, clock, frequency)

    def body(depth):
        s = Schedule(f"s{depth}")
        for n in names:
            if vc.length("give", 0, 4) == 0:
                f = vc.choice("freq", [1e9, 1e9, 2e9])
                s.add_resource(ClockResource(n, f))
                given.append((s, n, f))
        for _ in range(vc.length("operations", 1, 3)):
            k = vc.choice("what", ["pulse", "phase", "acq", "idle"] + (["nested", "loop", "if", "compensation"] if depth else []))
            n = vc.choice("clock", names)
            if k == "pulse":
                op = pl.SquarePulse(amp=0.1, duration=1e-7, port="p", clock=n)
            elif k == "phase":
                op = pl.ShiftClockPhase(phase_shift=10, clock=n)
            elif k == "acq":
                op = al.Trace(duration=1e-7, port="p", clock=n)
            elif k == "idle":
                op = pl.IdlePulse(1e-7)
            else:
                op = body(depth - 1)
                if k == "loop":
                    op = LoopOperation(body=op, repetitions=2)
                elif k == "if":
                    op = ConditionalOperation(body=op, qubit_name="q0")
                elif k == "compensation":
                    op = PulseCompensation(body=op, max_compensation_amp={"p": 0.1}, time_grid=4e-9, sampling_rate=1e9)
            if k in ("pulse", "phase", "acq"):
                used.append((s, n))
            s.add(op)
        return s

    s = body(vc.length("depth", 0, 2))
    cfg = SimpleNamespace(device_compilation_config=DeviceCompilationConfig(elements={}, clocks=freq, edges={}))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        o = vc.run(vc.fn(f"{D}:set_pulse_and_acquisition_clock"), s, cfg)
    by = {}
    for _, n, f in given:
        by.setdefault(n, set()).add(f)
    clash = any(len(v) > 1 for v in by.values())
    want = {n: next(iter(by[n])) if n in by else freq.get(n) for n in names}
    unknown = [n for _, n in used if want[n] is None or math.isnan(want[n])]
    if clash or unknown:
        vc.prove("no frequency, or more than one: rejected", isinstance(o.exc, ValueError), lambda: f"{given} {unknown} {o}")
        return
    vc.prove("accepted", o.ok, lambda: repr(o.exc))
    for x, n in used:
        vc.prove("a clock that is used is there", n in x.resources, n)
        vc.prove("its frequency is that of the schedule, else that of the device", x.resources[n]["freq"] == want[n],
                 lambda: f"{n}: {x.resources[n]['freq']} != {want[n]}")
    for x, n, f in given:
        vc.prove("what was given stays", x.resources[n]["freq"] == f)
    conflicts = [n for n in by if n in freq and not math.isnan(freq[n]) and freq[n] != want[n]]
    vc.prove("a warning for every clock of the schedule that differs from the device",
             all(any(f"'{n}'" in str(w.message) for w in seen) for n in conflicts), conflicts)


def setting(vc, e, name, v):
    """set a parameter of a device element"""
    for p in name.split("."):
        e = getattr(e, p)
    e(v)
    return v


@unit("C15.elements", "C15", modes=("fuzz",), fuzz=400, budget=80, shards=2,
      targets=["quantify_scheduler.device_under_test.nv_element", "quantify_scheduler.device_under_test.spin_element",
               "quantify_scheduler.device_under_test.spin_edge", "quantify_scheduler.operations.measurement_factories",
               "quantify_scheduler.operations.nv_native_library"])
def elements(vc):
    """gates of spin qubits, charge sensors and NV centres, and long traces, become what the configuration of the element says"""
    from qcodes import Instrument
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from quantify_scheduler.device_under_test.nv_element import BasicElectronicNVElement
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.device_under_test.spin_edge import SpinEdge
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations import gate_library as g
    from quantify_scheduler.operations import nv_native_library as nv
    from vlib import qdev
    from vlib.qdev import Item

    Instrument.close_all()
    try:
        dev = QuantumDevice("dev")
        kind = vc.choice("element", ["spin", "sensor", "nv", "transmon"])
        e = {"spin": BasicSpinElement, "sensor": ChargeSensor, "nv": BasicElectronicNVElement, "transmon": BasicTransmonElement}[kind]("e")
        dev.add_element(e)
        real = lambda n, lo=-1, hi=1: round(vc.real(n, lo, hi), 6)
        ns = lambda n, lo, hi: vc.length(n, lo, hi) * 1e-9
        S = lambda n, v: setting(vc, e, n, v)
        for c in ("f01", "readout", "f_larmor", "spec", "ge0", "ge1", "ionization"):
            if hasattr(e.clock_freqs, c):
                S(f"clock_freqs.{c}", 5e9)
        gates = {"spin": ["Rxy", "Rz", "H", "Reset", "Measure", "Measure", "LongTimeTrace", "CZ"], "sensor": ["Measure", "LongTimeTrace"],
                 "transmon": ["LongTimeTrace"],
                 "nv": ["Rxy", "Reset", "ChargeReset", "SpectroscopyOperation", "Measure", "CRCount", "Measure", "CRCount"]}[kind]
        k = vc.choice("gate", gates)
        sq = lambda amp, d, port, clock, t=0.0: (t, "square", dict(amp=amp, duration=d, port=port, clock=clock))
        deg = {"G_amp": 0, "D_amp": 0, "phase": 0}
        if k == "Rxy":
            th, ph = real("theta", -400, 400), real("phi", -400, 400)
            op, th, ph = g.Rxy(theta=th, phi=ph, qubit="e"), qdev.wrap(th), ph % 360
            a, d, port = S("rxy.amp180", real("amp180")), S("rxy.duration", ns("d", 4, 60)), S("ports.microwave", vc.choice("port", ["e:mw", "w"]))
            shape = S("rxy.pulse_shape", vc.choice("shape", ["SkewedHermitePulse", "GaussPulse"])) if kind == "nv" else "GaussPulse"
            f = dict(port=port, clock="e.spec" if kind == "nv" else "e.f_larmor", duration=d, phase=round(ph, 8))
            amp = a * round(th, 8) / 180
            if shape == "GaussPulse":
                want = Item([(0.0, "drag", dict(G_amp=amp, D_amp=0, **f))], d)
            else:
                want = Item([(0.0, "skewed_hermite", dict(amplitude=amp, skewness=S("rxy.skewness", real("skewness")), **f))], d)
        elif k == "Rz":
            th = real("theta", -400, 400)
            op, want = g.Rz(theta=th, qubit="e"), Item([(0.0, "phase", dict(clock="e.f_larmor", v=th))], 0.0)
        elif k == "H":
            a, d = S("rxy.amp180", real("amp180")), S("rxy.duration", ns("d", 4, 60))
            op = g.H("e")
            want = Item([(0.0, "phase", dict(clock="e.f_larmor", v=180)),
                         (0.0, "drag", dict(G_amp=a / 2, D_amp=0, phase=90, port="e:mw", clock="e.f_larmor", duration=d))], d)
        elif k == "CZ":
            e2 = BasicSpinElement("f")
            e2.clock_freqs.f_larmor(5e9)
            dev.add_element(e2)
            edge = SpinEdge("e", "f")
            dev.add_edge(edge)
            a, d, x, y = real("a", 0, 1), ns("d", 4, 60), real("x", -360, 360), real("y", -360, 360)
            edge.cz.square_amp(a), edge.cz.square_duration(d), edge.cz.parameters["e_phase_correction"](x), edge.cz.parameters["f_phase_correction"](y)
            op = g.CZ(*vc.choice("order", [("e", "f"), ("f", "e")]))
            want = Item([sq(a, d, "e_f:gt", "cl0.baseband"), (0.0, "phase", dict(clock="e.f_larmor", v=x)), (0.0, "phase", dict(clock="f.f_larmor", v=y))], d)
        elif k == "Reset" and kind == "nv":
            a, d = S("reset.amplitude", real("a", 0, 1)), S("reset.duration", ns("d", 100, 400))
            op, want = g.Reset("e"), Item([sq(a, d, e.ports.optical_control(), "e.ge1")], d)
        elif k == "Reset":
            d = S("reset.duration", ns("d", 100, 400))
            op, want = g.Reset("e"), Item([], d)
        elif k == "ChargeReset":
            a, d = S("charge_reset.amplitude", real("a", 0, 1)), S("charge_reset.duration", ns("d", 100, 400))
            op, want = nv.ChargeReset("e"), Item([sq(a, d, e.ports.optical_control(), "e.ionization")], d)
        elif k == "SpectroscopyOperation":

            a, d = S("spectroscopy_operation.amplitude", real("a", 0, 1)), S("spectroscopy_operation.duration", ns("d", 100, 400))
            shape = S("spectroscopy_operation.pulse_shape", vc.choice("shape", ["SquarePulse", "SkewedHermitePulse", "GaussPulse"]))
            from quantify_scheduler.operations.shared_native_library import SpectroscopyOperation

            op = SpectroscopyOperation("e")
            f = dict(port="e:mw", clock="e.spec", duration=d)
            want = Item([{"SquarePulse": (0.0, "square", dict(amp=a, **f)), "GaussPulse": (0.0, "drag", dict(G_amp=a, D_amp=0, phase=0, **f)),
                          "SkewedHermitePulse": (0.0, "skewed_hermite", dict(amplitude=a, skewness=0, phase=0, **f))}[shape]], d)
        elif kind == "nv":
            m = "measure" if k == "Measure" else "cr_count"
            ch, delay, d = S(f"{m}.acq_channel", vc.choice("channel", [0, 2, "z"])), S(f"{m}.acq_delay", vc.length("delay", -300, 300) * 1e-9), S(
                f"{m}.acq_duration", ns("adur", 100, 500))
            proto = vc.choice("protocol", [None, "TriggerCount", "Trace"] + (["Timetag", "TimetagTrace"] if k == "Measure" else []))
            over, coords = vc.choice("override", [None, 5]), vc.choice("coords", [None, {"x": 1}])
            mode = vc.choice("mode", [None, BinMode.APPEND, BinMode.DISTRIBUTION if proto in (None, "TriggerCount") else BinMode.APPEND])
            op = (g.Measure if k == "Measure" else nv.CRCount)("e", acq_protocol=proto, acq_channel=over, coords=coords, bin_mode=mode)
            t, at = max(0.0, -delay), max(0.0, delay)
            if k == "Measure":
                p = [(S("measure.pulse_amplitude", real("a", 0, 1)), S("measure.pulse_duration", ns("d", 20, 400)), "e.ge0")]
            else:
                p = [(S("cr_count.readout_pulse_amplitude", real("a", 0, 1)), S("cr_count.readout_pulse_duration", ns("d", 20, 400)), "e.ge0"),
                     (S("cr_count.spinpump_pulse_amplitude", real("b", 0, 1)), S("cr_count.spinpump_pulse_duration", ns("d", 20, 400)), "e.ge1")]
            f = dict(protocol=proto or "TriggerCount", port=e.ports.optical_readout(), clock="e.ge0", duration=d, coords=coords,
                     acq_channel=ch if over is None else over, bin_mode=BinMode.APPEND if mode is None else mode)
            if proto == "Trace":
                f.pop("bin_mode")
            elif proto == "TimetagTrace":
                f.pop("bin_mode")
            want = Item([sq(a, dd, e.ports.optical_control(), c, t) for a, dd, c in p] + [(at, "acq", f)], max([t + x[1] for x in p] + [at + d]))
        elif k == "Measure":
            a, b, pd = S("measure.pulse_amp", real("a", 0, 1)), S("measure.gate_pulse_amp", real("b")), S("measure.pulse_duration", ns("d", 20, 400))
            delay, d, rcp = S("measure.acq_delay", ns("delay", 0, 300)), S("measure.integration_time", ns("adur", 100, 500)), S(
                "measure.reset_clock_phase", vc.bool("reset clock phase"))
            proto, over = vc.choice("protocol", [None, "SSBIntegrationComplex", "Trace", "ThresholdedAcquisition"]), vc.choice("override", [None, "w"])
            fr = vc.choice("freq", [None, 4e9])
            apply = vc.bool("apply acquisition delay")
            op = g.Measure("e", acq_protocol=proto, acq_channel=over, apply_acquisition_delay=apply, **({"freq": fr} if fr else {}))
            f = dict(protocol=proto or "SSBIntegrationComplex", port="e:res", clock="e.ro", duration=d, acq_channel=0 if over is None else over)
            if proto == "ThresholdedAcquisition":
                f.update(acq_rotation=S("measure.acq_rotation", real("rot", 0, 360)), acq_threshold=S("measure.acq_threshold", real("thr")))
            dur = max(pd, delay + d)
            parts = [(0.0, "reset", dict(clock="e.ro"))] if rcp else []
            parts += [sq(a, pd, "e:res", "e.ro"), sq(b, pd, "e:gt", "cl0.baseband"), (delay, "acq", f)]
            if fr:
                parts = [(0.0, "freq", dict(clock="e.ro", v=fr)), *parts, (dur, "freq", dict(clock="e.ro", v=None))]
            want = Item(parts, dur, 0.0 if apply else -delay)
        else:
            a, delay, d = S("measure.pulse_amp", real("a", 0, 1)), S("measure.acq_delay", ns("delay", 0, 300)), S("measure.integration_time", ns("adur", 300, 500))
            n, over, ch = S("measure.num_points", vc.length("points", 1, 20)), vc.choice("override", [None, "w"]), S("measure.acq_channel", vc.choice("ch", [0, 4]))
            index = vc.choice("index", [None, 0, 2])
            op = g.Measure("e", acq_protocol="LongTimeTrace", acq_channel=over, acq_index=index, bin_mode=BinMode.APPEND)
            it = Item([(0.0, "reset", dict(clock="e.ro")), (0.0, "acq", dict(protocol="SSBIntegrationComplex", acq_channel=ch if over is None else over,
                       acq_index=index, bin_mode=BinMode.APPEND, duration=d, port="e:res", clock="e.ro"))], d)
            off = lambda t, v: (t, "other", dict(offset_path_I=v, offset_path_Q=0, port="e:res", clock="e.ro"))
            parts = [off(0.0, a), (delay, "loop", dict(item=it, reps=n)), off(delay + n * d, 0)]
            end = delay + n * d + 4e-9
            if kind != "transmon":
                b = S("measure.gate_pulse_amp", real("b"))
                parts.append(sq(b, n * d, "e:gt", "cl0.baseband"))
            want = Item(parts, end)
        s = Schedule("s")
        s.add(op)
        last = qdev.Item([sq(0.25, 1e-8, "last", "cl0.baseband")], 1e-8)
        from quantify_scheduler.operations.pulse_library import SquarePulse

        s.add(SquarePulse(amp=0.25, duration=1e-8, port="last", clock="cl0.baseband"))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = vc.run(SerialCompiler("c").compile, s, dev.generate_compilation_config())
        vc.prove("it can be compiled", o.ok, lambda: repr(o.exc)[:500])
        parts = list(qdev.loops(Item(want.parts + [(want.dur + want.delay, *last.parts[0][1:])], 0)))
        qdev.compare(vc, parts, list(qdev.flatten(o.value)))
    finally:
        Instrument.close_all()


# -- gates that are configured as schedules of gates -------------------------------------------------------------------------------
def leaf(amp, duration, port, clock):
    from quantify_scheduler.operations.pulse_library import SquarePulse

    return SquarePulse(amp=amp, duration=duration, port=port, clock=clock)


SCHEDULES = {}  # name -> the gates


def several(name):
    from quantify_scheduler import Schedule

    s = Schedule(name)
    for g in SCHEDULES[name]:
        s.add(gate(*g))
    return s


def gate(kind, elements, overrides):
    from quantify_scheduler.operations.operation import Operation

    op = Operation(f"{kind} {elements}")
    op.data["gate_info"] = {"unitary": None, "operation_type": kind, "device_elements": list(elements), "symmetric": False,
                            "device_overrides": dict(overrides)}
    op._update()
    return op


@unit("C15.subschedules", "C15", modes=("fuzz",), fuzz=600, budget=60,
      targets=[f"{D}:_compile_circuit_to_device", f"{D}:_compile_single_device_element", f"{D}:_compile_two_device_elements",
               f"{D}:_compile_multiplexed"])
def subschedules(vc):
    """gates that are configured as schedules of gates become the pulses of those, at the same time for several elements and one
    after the other in a schedule; overrides of a gate hold for everything it consists of"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends.graph_compilation import DeviceCompilationConfig

    SCHEDULES.clear()
    qs = vc.choice("names", [["q0", "q1", "q2"], ["q1", "q10", "q0"]])  # a name can be part of another one
    edges = ["_".join(qs[i] for i in e) for e in ((0, 1), (1, 0), (1, 2))]
    conf = {}

    def some(level):
        """a gate of a lower level"""
        lev = vc.length("level", 0, level - 1)
        ov = {k: vc.choice("override", [0.3, 0.4]) if k == "amp" else vc.length("override", 1, 30) * 4e-9
              for k in ("amp", "duration") if vc.length("overrides", 0, 2) == 0}
        if lev and vc.bool("on an edge"):
            return f"e{lev}", vc.choice("edge", [e.split("_") for e in edges]), ov
        first = vc.length("element", 0, 2)
        n = vc.length("elements", 1, 3) if vc.bool("several") else 1
        return f"k{lev}", [qs[(first + i) % 3] for i in range(n)], ov

    for lev in range(3):
        for where in qs + edges:
            kind = f"k{lev}" if where in qs else f"e{lev}"
            if lev == 0 and where in edges:
                continue
            if lev == 0 or vc.length("leaf", 0, 2) == 0:
                kw = dict(amp=vc.choice("amp", [0.1, 0.2]), duration=vc.length("dur", 1, 30) * 4e-9, port=f"{where}:{kind}", clock="c")
                conf[kind, where] = dict(factory_func=leaf, factory_kwargs=kw)
            else:
                name = f"{kind} of {where}"
                SCHEDULES[name] = [some(lev) for _ in range(vc.length("gates", 1, 3))]
                conf[kind, where] = dict(factory_func=several, factory_kwargs={"name": name})

    def pulses(g, t, outer):
        """(pulses, end)"""
        kind, elements, ov = g
        ov = {**ov, **outer}
        got, end = [], t
        for w in ["_".join(elements)] if kind[0] == "e" else elements:
            c = conf[kind, w]
            kw = c["factory_kwargs"]
            if "name" not in kw:
                kw = {**kw, **ov}
                got.append((round(t * 1e9), kw["port"], kw["amp"], round(kw["duration"] * 1e9)))
                end = max(end, t + kw["duration"])
                continue
            u = t
            for h in SCHEDULES[kw["name"]]:
                p, u = pulses(h, u, ov)
                got += p
            end = max(end, u)
        return got, end

    cfg = DeviceCompilationConfig(
        elements={q: {k: v for (k, w), v in conf.items() if w == q} for q in qs},
        edges={e: {k: v for (k, w), v in conf.items() if w == e} for e in edges}, clocks={"c": 1e9})
    s, want, t = Schedule("s"), [], 0
    for _ in range(vc.length("gates", 1, 3)):
        g = some(3)
        p, t = pulses(g, t, {})
        want += p
        s.add(gate(*g))
    o = vc.run(vc.fn(f"{D}:_compile_circuit_to_device"), s, cfg, {})
    vc.prove("it can be compiled", o.ok, lambda: repr(o.exc))
    s = vc.fn(f"{C}:_determine_absolute_timing")(o.value)
    got = []

    def walk(op, t):
        if isinstance(op, Schedule):
            for x in op.schedulables.values():
                walk(op.operations[x["operation_id"]], t + x["abs_time"])
        else:
            got.extend((round((t + i["t0"]) * 1e9), i["port"], i["amp"], round(i["duration"] * 1e9)) for i in op.data["pulse_info"])

    walk(s, 0)
    vc.prove("exactly the pulses of the configuration", sorted(got) == sorted(want), lambda: f"{sorted(got)} != {sorted(want)}")
