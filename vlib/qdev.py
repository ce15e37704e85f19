"""Gate-level schedules on random devices, with what the device configuration says they have to become.

What a gate has to become is written here from the documentation of the gates and of the parameters of the device elements; nothing of
the compiler is used for it.
"""
from __future__ import annotations

import math

import numpy as np


class Item:
    """an operation: its timed parts [(t, kind, fields)], how long it lasts, by how much what refers to it is moved"""

    def __init__(self, parts, dur, delay=0.0):
        self.parts, self.dur, self.delay = parts, dur, delay


def par(*items):
    return Item([p for i in items for p in i.parts], max([i.dur for i in items], default=0.0), min([i.delay for i in items], default=0.0))


def seq(*items):
    parts, t = [], 0.0
    for i in items:
        parts += [(t + p[0], *p[1:]) for p in i.parts]
        t += i.dur
    return Item(parts, t)


def ns(vc, name, lo, hi):
    return vc.length(name, lo, hi) * 1e-9


class Transmon:
    def __init__(self, vc, name):
        from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement

        self.name, self.vc = name, vc
        e = self.element = BasicTransmonElement(name)
        r = lambda n, lo, hi: round(vc.real(n, lo, hi), 9)
        p = self.p = dict(
            amp180=r("amp180", -1, 1), motzoi=r("motzoi", -1, 1), dur=ns(vc, "dur", 4, 60), reset=ns(vc, "reset", 100, 400),
            mw=vc.choice("mw", [f"{name}:mw", f"{name}:drive"]), ro=vc.choice("ro", [f"{name}:res", "feedline"]),
            pamp=r("pamp", 0, 1), pdur=ns(vc, "pdur", 20, 400), delay=ns(vc, "delay", 0, 300), adur=ns(vc, "adur", 20, 500),
            channel=vc.choice("channel", [0, 3, "a", name]), rcp=vc.bool("reset clock phase"), rot=r("rot", 0, 360), thr=r("thr", -1, 1))
        e.rxy.amp180(p["amp180"]); e.rxy.motzoi(p["motzoi"]); e.rxy.duration(p["dur"]); e.reset.duration(p["reset"])
        e.ports.microwave(p["mw"]); e.ports.readout(p["ro"])
        e.measure.pulse_amp(p["pamp"]); e.measure.pulse_duration(p["pdur"]); e.measure.acq_delay(p["delay"])
        e.measure.integration_time(p["adur"]); e.measure.acq_channel(p["channel"]); e.measure.reset_clock_phase(p["rcp"])
        e.measure.acq_rotation(p["rot"]); e.measure.acq_threshold(p["thr"])
        self.clocks = {f"{name}.01": 5e9 + vc.length("f", 0, 9) * 1e6, f"{name}.ro": 7e9 + vc.length("f", 0, 9) * 1e6}
        e.clock_freqs.f01(self.clocks[f"{name}.01"]); e.clock_freqs.readout(self.clocks[f"{name}.ro"])
        self.weights = None
        if vc.bool("weights"):
            n = vc.length("nw", 1, 5)
            self.weights = [np.array([round(vc.real("w", -1, 1), 3) for _ in range(n)]) for _ in "ab"]
            e.measure.acq_weights_a(self.weights[0]); e.measure.acq_weights_b(self.weights[1]); e.measure.acq_weights_sampling_rate(1e9)

    def rxy(self, theta, phi, o):
        p = {**self.p, **o}
        theta, phi = round(wrap(theta), 8), round(phi % 360, 8)
        return Item([(0.0, "drag", dict(G_amp=p["amp180"] * theta / 180, D_amp=p["motzoi"], phase=phi, port=p["mw"],
                                        clock=p.get("clock", f"{self.name}.01"), duration=p["dur"]))], p["dur"])

    def rz(self, theta, o):
        return Item([(0.0, "phase", dict(clock=o.get("clock", f"{self.name}.01"), v=o.get("theta", theta)))], 0.0)

    def h(self, o):
        return seq(self.rz(180, {k: v for k, v in o.items() if k == "clock"}), self.rxy(90, 90, o))

    def reset_(self, o):
        d = {**self.p, **o}["reset"]
        return Item([], d)

    def measure(self, proto, index, channel, coords, mode, label, apply, o):
        from quantify_scheduler.enums import BinMode

        p = {**self.p, **o}
        clock, port = f"{self.name}.ro", p["ro"]
        parts = [(0.0, "reset", dict(clock=clock))] if p["rcp"] else []
        parts.append((0.0, "square", dict(amp=p["pamp"], duration=p["pdur"], port=port, clock=clock)))
        proto = proto or "SSBIntegrationComplex"
        f = dict(protocol=proto, port=port, clock=clock, acq_channel=p["channel"] if channel is None else channel, acq_index=index, coords=coords,
                 bin_mode=BinMode.AVERAGE if mode is None else mode, duration=p["adur"])
        if "Weighted" in proto:
            if self.weights is None:
                return None
            f["duration"] = len(self.weights[0]) * 1e-9
            f["weights"] = self.weights
        if proto in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition"):
            f["feedback_trigger_label"], f["acq_threshold"] = label, p["thr"]
        if proto == "ThresholdedAcquisition":
            f["acq_rotation"] = p["rot"]
        parts.append((p["delay"], "acq", f))
        dur = max(p["pdur"], p["delay"] + f["duration"])
        if "freq" in o:
            parts = [(0.0, "freq", dict(clock=clock, v=o["freq"])), *parts, (dur, "freq", dict(clock=clock, v=None))]
        return Item(parts, dur, 0.0 if apply else -p["delay"])


def wrap(theta):
    """into ]-180, 180]"""
    return theta - 360 * math.ceil((theta - 180) / 360)


NAMES = {"amp180": "amp180", "motzoi": "motzoi", "dur": "duration", "reset": "duration", "pamp": "pulse_amp", "pdur": "pulse_duration",
         "delay": "acq_delay", "adur": "acq_duration", "ro": "port", "mw": "port", "thr": "acq_threshold", "rot": "acq_rotation",
         "rcp": "reset_clock_phase", "channel": "acq_channel"}


class Device:
    def __init__(self, vc, n=2):
        from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice

        self.vc = vc
        self.device = QuantumDevice("dev")
        self.q = [Transmon(vc, f"q{i}") for i in range(n)]
        for x in self.q:
            self.device.add_element(x.element)
        self.edges = {}
        for i in range(n):
            for j in range(n):
                if i != j and (j, i) not in self.edges and vc.bool("edge"):
                    e = CompositeSquareEdge(f"q{i}", f"q{j}")
                    d = dict(amp=round(vc.real("cz", 0, 1), 6), dur=ns(vc, "czd", 4, 60), a=round(vc.real("cza", -360, 360), 6),
                             b=round(vc.real("czb", -360, 360), 6))
                    e.cz.square_amp(d["amp"]); e.cz.square_duration(d["dur"])
                    e.cz.parameters[f"q{i}_phase_correction"](d["a"]); e.cz.parameters[f"q{j}_phase_correction"](d["b"])
                    self.device.add_edge(e)
                    self.edges[i, j] = d
        self.clocks = {k: v for x in self.q for k, v in x.clocks.items()}
        self.override = True

    def overrides(self, *names):
        """random overrides: what is given to the gate and what that means for the parameters"""
        vc, mine, given = self.vc, {}, {}
        for n in names:
            if self.override and vc.length("override", 0, 5) == 0:
                if n in ("amp180", "motzoi", "pamp", "thr"):
                    v = round(vc.real("ov", -1, 1), 6)
                elif n == "rot":
                    v = round(vc.real("ov", 0, 360), 6)
                elif n in ("ro", "mw"):
                    v = "other:port"
                elif n == "rcp":
                    v = vc.bool("ov")
                elif n == "clock":
                    v = "q0.ro"
                elif n == "freq":
                    v = 6.9e9
                elif n == "channel":
                    v = "ov"
                else:
                    v = ns(vc, "ov", 5, 200)
                mine[n], given[NAMES.get(n, n)] = v, v
        return mine, given

    def angle(self):
        vc = self.vc
        return vc.choice("angle", [0, 90, 180, -90, 45, 30, 270, 360, 540, -180, vc.length("int", -720, 720), round(vc.real("angle", -800, 800), 5)])

    def gate(self):
        """a gate and what it has to become"""
        from quantify_scheduler.operations import gate_library as g

        vc = self.vc
        x = vc.choice("qubit", self.q)
        k = vc.choice("gate", ["Rxy", "fixed", "fixed", "Rz", "Rz", "Rz", "fixed z", "H", "CZ", "Reset", "Measure", "Measure"])
        if k == "Rxy":
            th, ph = self.angle(), self.angle()
            o, kw = self.overrides("amp180", "motzoi", "dur", "mw", "clock")
            return g.Rxy(theta=th, phi=ph, qubit=x.name, **kw), x.rxy(th, ph, o)
        if k == "fixed":
            n, th, ph = vc.choice("which", [("X", 180, 0), ("X90", 90, 0), ("Y", 180, 90), ("Y90", 90, 90)])
            o, kw = self.overrides("amp180", "motzoi", "dur", "mw", "clock")
            return getattr(g, n)(x.name, **kw), x.rxy(th, ph, o)
        if k == "Rz":
            th = self.angle()
            o, kw = self.overrides("clock")
            return g.Rz(theta=th, qubit=x.name, **kw), x.rz(th, o)
        if k == "fixed z":
            n, th = vc.choice("which", [("Z", 180), ("Z90", 90), ("S", 90), ("SDagger", -90), ("T", 45), ("TDagger", -45)])
            o, kw = self.overrides("clock")
            return getattr(g, n)(x.name, **kw), x.rz(th, o)
        if k == "CZ":
            if not self.edges:
                return None
            i, j = vc.choice("edge", sorted(self.edges))
            d = self.edges[i, j]
            a, b = (j, i) if vc.bool("swapped") else (i, j)
            parts = [(0.0, "square", dict(amp=d["amp"], duration=d["dur"], port=f"q{i}:fl", clock="cl0.baseband")),
                     (0.0, "phase", dict(clock=f"q{i}.01", v=d["a"])), (0.0, "phase", dict(clock=f"q{j}.01", v=d["b"]))]
            return g.CZ(f"q{a}", f"q{b}"), Item(parts, d["dur"])
        xs = [x]
        if len(self.q) > 1 and vc.bool("several"):
            xs = self.q if vc.bool("order") else self.q[::-1]
        names = [y.name for y in xs]
        if k == "H":
            o, kw = self.overrides("amp180", "dur", "clock")
            return g.H(*names, **kw), par(*[y.h(o) for y in xs])
        if k == "Reset":
            o, kw = self.overrides("reset")
            return g.Reset(*names, **kw), par(*[y.reset_(o) for y in xs])
        proto = vc.choice("proto", [None, None, "SSBIntegrationComplex", "Trace", "ThresholdedAcquisition", "NumericalSeparatedWeightedIntegration",
                                    "NumericalWeightedIntegration", "WeightedThresholdedAcquisition"])
        index = vc.choice("index", [None, 0, 3])
        if len(xs) > 1 and vc.bool("indices"):
            index = tuple(range(len(xs)))
        channel = vc.choice("override channel", [None, None, "z", 7])
        coords = vc.choice("coords", [None, None, {"amp": 0.5}])
        mode = vc.choice("mode", [None, "average", "append"]) if proto != "Trace" else None
        from quantify_scheduler.enums import BinMode

        mode = mode and BinMode(mode)
        label = vc.choice("label", [None, "q0"]) if proto and "Thresholded" in proto else None
        apply = vc.bool("apply acquisition delay")
        o, kw = self.overrides("pamp", "pdur", "delay", "adur", "ro", "thr", "rot", "rcp", "freq")
        if "freq" in o and len(xs) > 1:
            del o["freq"], kw["freq"]
        items = [y.measure(proto, index[i] if isinstance(index, tuple) else index, channel, coords, mode, label, apply, o)
                 for i, y in enumerate(xs)]
        if any(i is None for i in items):
            return None
        return (g.Measure(*names, acq_protocol=proto, acq_index=index, acq_channel=channel, coords=coords, bin_mode=mode, feedback_trigger_label=label,
                          apply_acquisition_delay=apply, **kw), par(*items))

    def pulse(self):
        from quantify_scheduler.operations import pulse_library as pl

        vc = self.vc
        x = vc.choice("qubit", self.q)
        k = vc.choice("pulse", ["square", "phase", "reset", "idle"])
        clock = vc.choice("clock", sorted(x.clocks))
        if k == "square":
            a, d = round(vc.real("a", -1, 1), 6), ns(vc, "d", 4, 60)
            return (pl.SquarePulse(amp=a, duration=d, port="some:port", clock=clock),
                    Item([(0.0, "square", dict(amp=a, duration=d, port="some:port", clock=clock))], d))
        if k == "phase":
            v = self.angle()
            return pl.ShiftClockPhase(phase_shift=v, clock=clock), Item([(0.0, "phase", dict(clock=clock, v=v))], 0.0)
        if k == "reset":
            return pl.ResetClockPhase(clock=clock), Item([(0.0, "reset", dict(clock=clock))], 0.0)
        d = ns(vc, "d", 0, 60)
        return pl.IdlePulse(d), Item([], d)

    def body(self, depth, strategy):
        """a schedule of gates, pulses, loops and schedules, and what it has to become: the timing follows the documentation of Schedule.add"""
        from quantify_scheduler import Schedule
        from quantify_scheduler.operations.control_flow_library import LoopOperation

        vc = self.vc
        s = Schedule(f"s{depth}")
        adds = []  # (op, item, index of reference or None, pt, pt new, rel)
        shared = []
        for _ in range(vc.length("operations", 1, 6)):
            k = vc.choice("what", ["gate"] * 5 + ["pulse", "again", "again"] + (["loop", "nested"] if depth else []))
            if k == "gate":
                x = self.gate()
            elif k == "pulse":
                x = self.pulse()
            elif k == "again":
                x = vc.choice("again", shared) if shared else None
            elif k == "nested":
                x = self.body(depth - 1, "asap")
            else:
                inner, it = self.body(depth - 1, "asap")
                reps = vc.length("reps", 1, 3)
                x = (LoopOperation(body=inner, repetitions=reps), Item([(0.0, "loop", dict(item=it, reps=reps))], reps * it.dur))
            if x is None:
                continue
            shared.append(x)
            ref, pt, new, rel = None, "end", "start", 0.0
            if adds and vc.length("timing", 0, 3) == 0:
                ref = vc.length("ref", 0, len(adds) - 1) if vc.bool("explicit") else None
                pt, new = vc.choice("pt", ["start", "center", "end"]), vc.choice("new", ["start", "center", "end"])
                rel = vc.length("rel", 0, 500) * 1e-9
            adds.append((*x, ref, pt, new, rel))
        if not adds:
            return self.body(depth, strategy)
        made = []
        for op, it, ref, pt, new, rel in adds:
            kw = {"ref_op": made[ref]} if ref is not None else {}
            if pt != "end" or new != "start":
                kw.update(ref_pt=pt, ref_pt_new=new)
            made.append(s.add(op, rel_time=rel, **kw))
        at = {"start": 0.0, "center": 0.5, "end": 1.0}
        starts, parts, end = [], [], 0.0
        for i, (op, it, ref, pt, new, rel) in enumerate(adds):
            if i == 0:
                t = rel
            else:
                r = i - 1 if ref is None else ref
                t = starts[r] + at[pt] * adds[r][1].dur + rel + adds[r][1].delay - at[new] * it.dur
            starts.append(t)
        first = min(0.0, *starts)  # nothing starts before time zero: then everything is moved
        starts = [t - first for t in starts]
        for t, (op, it, *_) in zip(starts, adds):
            parts += [(t + p[0], *p[1:]) for p in it.parts]
            end = max(end, t + it.dur)
        return s, Item(parts, end)


def loops(item, t=0.0, path=()):
    """the parts one by one, loops once, with the path of loops they are in"""
    for i, p in enumerate(item.parts):
        if p[1] == "loop":
            yield from loops(p[2]["item"], t + p[0], (*path, round((t + p[0]) * 1e12), p[2]["reps"]))
        else:
            yield (t + p[0], p[1], p[2], path)


def flatten(s, t=0.0, path=()):
    """the parts of a schedule that was compiled to the device level"""
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    for x in s.schedulables.values():
        yield from flat_op(s.operations[x["operation_id"]], t + x["abs_time"], path)


def flat_op(op, t, path):
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    if isinstance(op, ScheduleBase):
        yield from flatten(op, t, path)
        return
    if isinstance(op, LoopOperation):
        yield from flat_op(op.body, t, (*path, round(t * 1e12), op.data["control_flow_info"]["repetitions"]))
        return
    for p in op.data["pulse_info"]:
        w = p["wf_func"]
        if w is not None:
            kind = w.rsplit(".", 1)[1]
            yield (t + p["t0"], kind, p, path)
        elif "phase_shift" in p:
            yield (t + p["t0"], "phase", dict(clock=p["clock"], v=p["phase_shift"]), path)
        elif p.get("reset_clock_phase"):
            yield (t + p["t0"], "reset", p, path)
        elif "clock_freq_new" in p:
            yield (t + p["t0"], "freq", dict(clock=p["clock"], v=p["clock_freq_new"]), path)
        elif p.get("port") is None and p["clock"] == "cl0.baseband":
            continue
        else:
            yield (t + p["t0"], "other", p, path)
    for a in op.data["acquisition_info"]:
        if "Weighted" in a["protocol"]:
            a = {**a, "weights": [w["samples"] for w in a["waveforms"]]}
        yield (t + a["t0"], "acq", a, path)


def compare(vc, want, have):
    """the same parts at the same times with what is asked for, and the same phase of its clock at each of them"""
    main = lambda ps: sorted((p for p in ps if p[1] != "phase"), key=lambda p: (p[3], round(p[0] * 1e10 + 0.137), p[1], str(p[2].get("port")),
                                                                                  str(p[2].get("clock")), str(p[2].get("acq_channel")),
                                                                                  round(p[2].get("G_amp", p[2].get("amp", 0)) * 1e6),
                                                                                  round(p[2].get("phase", 0) * 1e4), str(p[2].get("acq_index"))))
    a, b = main(want), main(have)
    show = lambda ps: [(round(p[0] * 1e9, 3), p[1], p[3]) for p in ps]
    vc.prove("there is as much as the gates ask for", len(a) == len(b), (show(a), show(b)))
    for x, y in zip(a, b):
        vc.prove("everything is played at its time", abs(x[0] - y[0]) < 1e-12 and x[1] == y[1] and x[3] == y[3], (show(a), show(b)))
        for k, v in x[2].items():
            w = y[2].get(k, "missing")
            ok = near(v, w)
            vc.prove(f"the {k} of a {x[1]} is that of the device configuration or of the gate", ok, (x, y))
    pa, pb = phases(want), phases(have)
    for c in sorted(set(pa) | set(pb)):
        x, y = pa.get(c, []), pb.get(c, [])
        vc.prove("the phase at every pulse and acquisition is that of all rotations before it", len(x) == len(y) and all(
            p[:2] == q[:2] and turn(p[2] - q[2]) for p, q in zip(x, y)), (c, x, y))


def near(v, w):
    if isinstance(v, list):
        return len(v) == len(w) and all(np.array_equal(p, q) for p, q in zip(v, w))
    if isinstance(v, float) or isinstance(w, float):
        return not isinstance(w, str) and w is not None and v is not None and math.isclose(v, w, rel_tol=1e-9, abs_tol=1e-12)
    return v == w


def turn(x):
    return abs((x + 180) % 360 - 180) < 1e-6


def phases(parts):
    """for every clock: the phase that was accumulated at each part that uses it, in the order of time and of the schedule, per loop"""
    out, acc = {}, {}
    for t, k, f, path in sorted(parts, key=lambda p: (round(p[0] * 1e10 + 0.137),)):
        c = f.get("clock")
        if k == "phase":
            acc[c, path] = acc.get((c, path), 0.0) + f["v"]
        elif k == "reset":
            acc[c, path] = 0.0
            out.setdefault((c, path), []).append((round(t * 1e10 + 0.137), "reset", 0.0))
        elif k != "freq":
            out.setdefault((c, path), []).append((round(t * 1e10 + 0.137), k, acc.get((c, path), 0.0)))
    for c, v in acc.items():
        out.setdefault(c, []).append(("last", "", v))
    return {c: v for c, v in out.items() if len(v) > 1 or v[0][0] != "last" or not turn(v[0][2])}
