"""C22: crosstalk compensation."""
from __future__ import annotations

import copy
import math
import warnings

from engine.core import Fake, unit

X = "quantify_scheduler.backends.qblox.crosstalk_compensation"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"
LISTED = [("a", "c"), ("b-1", "c"), ("e", "d")]  # a dash in a port name is allowed
OTHER = ("o", "c")


class Options(Fake):
    def __init__(self, crosstalk):
        self.crosstalk = crosstalk


class Hardware(Fake):
    def __init__(self, crosstalk):
        self.hardware_options = Options(crosstalk)


class Config(Fake):
    def __init__(self, crosstalk):
        self.hardware_compilation_config = Hardware(crosstalk)


def name(pc):
    return f"{pc[0]}-{pc[1]}"


# --- the matrix ----------------------------------------------------------------------------------------------------------------

@unit("C22.matrix", "C22", modes=("fuzz",), fuzz=1500, budget=30, targets=[f"{X}:crosstalk_compensation"],
      assumptions=["numpy.linalg", "bounded: random matrices of up to 5 port-clocks, one pulse"])
def matrix(vc):
    """what crosstalk makes of the signals that are sent is what was requested"""
    import numpy as np

    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import SquarePulse

    n = vc.length("port-clocks", 1, 5)
    pcs = [(f"p{i}", f"k{vc.length('clock', 0, 1)}") for i in range(n)]
    if vc.bool("dash"):
        pcs[0] = ("p-0:fl", pcs[0][1])
    m = np.eye(n, dtype=complex)
    xt = {}
    for i in vc.choice("orders", [range(n), reversed(range(n))]):
        for j in range(n):
            k = vc.choice("entry", ["none", "none", "real", "complex", "zero"])
            if k == "none" or (i == j and not vc.bool("diagonal")):
                continue
            v = 0 if k == "zero" else round(vc.real("v", -0.15, 0.15), 4)
            if k == "complex":
                v = complex(v, round(vc.real("w", -0.1, 0.1), 4))
            if i == j:
                v = v + 1
            m[i, j] = v
            xt.setdefault(name(pcs[i]), {})[name(pcs[j])] = v
    used = [i for i in range(n) if name(pcs[i]) in set(xt) | {k for d in xt.values() for k in d}]
    if not used:
        return
    j = vc.choice("pulse", used)
    amp = round(vc.real("amp", 0.1, 0.5), 4)
    s = Schedule("s")
    x = s.add(SquarePulse(amp=amp, duration=20e-9, port=pcs[j][0], clock=pcs[j][1]))
    s.schedulables[x["name"]]["abs_time"] = 0
    o = vc.run(vc.fn(f"{X}:crosstalk_compensation"), s, Config(xt))
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    s = o.value
    sent = np.zeros(n, dtype=complex)
    for sch in s.schedulables.values():
        for p in s.operations[sch["operation_id"]].data["pulse_info"]:
            vc.prove("on a port-clock of the matrix", (p["port"], p["clock"]) in pcs, p)
            sent[pcs.index((p["port"], p["clock"]))] += p["amp"]
    arrives = m.T @ sent  # rows are sources, columns are targets
    want = np.zeros(n, dtype=complex)
    want[j] = amp
    vc.prove("the requested signal arrives", np.allclose(arrives, want, rtol=0, atol=1e-9), (arrives, want))


# --- one schedule ---------------------------------------------------------------------------------------------------------------

def played(op, out, t=0, where=()):
    """every pulse and other instruction of a schedule at its time: list of (where, time, info); where is the path of conditionals"""
    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation, LoopOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    if isinstance(op, ScheduleBase):
        for v in op.schedulables.values():
            played(op.operations[v["operation_id"]], out, t + v["abs_time"], where)
    elif isinstance(op, LoopOperation):
        for i in range(op.repetitions):
            played(op.body, out, t + i * op.body.duration, where)
    elif isinstance(op, ControlFlowOperation):
        played(op.body, out, t, (*where, op.data["control_flow_info"]["qubit_name"]))
    else:
        for p in op.data["pulse_info"]:
            out.append((where, t + p["t0"], p))
        for a in op.data["acquisition_info"]:
            out.append((where, t + a["t0"], {"acquisition": a, "tag": a["tag"], "duration": a["duration"]}))
    return out


def make_op(vc, tags, reals=True):
    from quantify_scheduler.operations.operation import Operation

    op = Operation("op")
    sym = vc.symbolic
    num = (lambda n, lo, hi: vc.real(n, lo, hi)) if sym else (lambda n, lo, hi: round(vc.real(n, lo, hi), 4))
    for _ in range(vc.length("pulses", 0, 2 if sym else 3)):
        k = vc.choice("info", ["pulse", "other"] if sym else ["pulse", "pulse", "pulse", "samples", "sudden", "other"])
        port, clock = vc.choice("port-clock", [LISTED[0], LISTED[1], OTHER] if sym else LISTED + [OTHER, ("a", "d")])
        p = {"port": port, "clock": clock, "t0": vc.real("t0", 0, 1) if sym else vc.length("t0", 0, 9) * 4e-9, "tag": tags[0],
             "duration": vc.real("dur", 0, 1) if sym else vc.length("dur", 1, 9) * 4e-9}
        tags[0] += 1
        if k == "other":
            p.update({"wf_func": None, "phase_shift": num("phase", -180, 180)})
        elif k == "pulse":
            f, names = vc.choice("function", [("square", ("amp",)), ("drag", ("G_amp", "D_amp"))] if sym else
                                 [("square", ("amp",)), ("drag", ("G_amp", "D_amp")), ("staircase", ("start_amp", "final_amp")),
                                  ("skewed_hermite", ("amplitude",)), ("ramp", ("amp", "offset"))])
            p.update({"wf_func": f"quantify_scheduler.waveforms.{f}", **{x: num(x, -1, 1) for x in names}})
            if f == "drag":
                p.update({"nr_sigma": 4, "sigma": None, "phase": num("phase", -180, 180)})
            elif f == "staircase":
                p["num_steps"] = vc.length("steps", 2, 4)
            elif f == "skewed_hermite":
                p.update({"skewness": num("skewness", -1, 1), "phase": 30, "pi2_pulse": False})
        elif k == "sudden":
            p.update({"wf_func": "quantify_scheduler.waveforms.sudden_net_zero", "amp_A": num("A", -1, 1), "amp_B": num("B", -1, 1),
                      "net_zero_A_scale": num("scale", 0, 1), "duration": 24e-9, "t_pulse": 8e-9, "t_phi": 4e-9, "t_integral_correction": 8e-9})
        else:
            p.update({"wf_func": "quantify_scheduler.waveforms.interpolated_complex_waveform", "samples": [num("x", -1, 1) for _ in range(3)],
                      "t_samples": [0, 4e-9, 8e-9], "interpolation": "linear", "duration": 8e-9})
        op.data["pulse_info"].append(p)
    if not op.data["pulse_info"] and not sym or vc.bool("acquisition"):
        op.data["acquisition_info"].append({"protocol": "Trace", "duration": 1e-6, "t0": 0, "port": "a", "clock": "c", "tag": tags[0]})
        tags[0] += 1
    op._update()
    return op


LINEAR = ("amp", "G_amp", "D_amp")


def wave(p):
    import numpy as np

    from quantify_scheduler.helpers.waveforms import get_waveform

    return np.asarray(get_waveform(pulse_info=p, sampling_rate=1e9), dtype=complex)


def tree(vc, depth, pool, tags):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation

    if pool and vc.bool("again"):
        return vc.choice("which", pool)
    k = vc.choice("kind", ["op", "op", "loop", "cond", "schedule"] if depth else ["op"])
    if k == "op":
        x = make_op(vc, tags)
    elif k == "loop":
        x = LoopOperation(body=tree(vc, depth - 1, pool, tags), repetitions=vc.length("loop", 1, 3))
    elif k == "cond":
        x = ConditionalOperation(body=tree(vc, depth - 1, pool, tags), qubit_name=f"q{len(pool)}")
    else:
        x = Schedule(f"s{len(pool)}")
        for _ in range(vc.length("entries", 1, 2 if vc.symbolic else 4)):
            x.add(tree(vc, depth - 1, pool, tags))
    pool.append(x)
    return x


def check(vc, depth, m):
    from quantify_scheduler import Schedule
    from quantify_scheduler.compilation import _determine_absolute_timing

    listed = LISTED[:len(m)]
    tags = [0]
    s = Schedule("top")
    pool = []
    for _ in range(1 if vc.symbolic else vc.length("top entries", 1, 4)):
        s.add(tree(vc, depth, pool, tags))
    if vc.symbolic:
        if vc.bool("twice"):
            s.add(pool[0])
        for x in s.schedulables.values():
            x["abs_time"] = vc.real("start", 0, 10)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = _determine_absolute_timing(s)
    before = played(s, []) if vc.symbolic else played(copy.deepcopy(s), [])
    before = [(w, t, {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}) for w, t, p in before]
    times = {k: v["abs_time"] for k, v in s.schedulables.items()}
    xt = {name(pc): {name(listed[0]): 0.0} for pc in listed}
    vc.stub(f"{X}:_calculate_compensation_matrix", lambda crosstalk, port_clock_list: m, always=True)
    if not vc.symbolic:
        import numpy as np

        inv = np.linalg.inv(np.array(m))  # such that the matrix of the code is m
        xt = {name(p): {name(q): inv[i][j] for j, q in enumerate(listed)} for i, p in enumerate(listed)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(vc.fn(f"{X}:crosstalk_compensation"), s, Config(xt))
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    r = o.value
    vc.prove("the operations are where they were", all(k in r.schedulables and vc.is_true(vc.eq(r.schedulables[k]["abs_time"], t)) for k, t in times.items())
             and [k for k in r.schedulables if k in times] == list(times))
    after = played(r, [])

    def group(tag, pc):
        return [(w, t, p) for w, t, p in after if p["tag"] == tag and (p.get("port"), p.get("clock")) == pc]

    for tag in range(tags[0]):
        mine = [b for b in before if b[2]["tag"] == tag]
        if not mine:
            continue
        p = mine[0][2]
        pc = (p.get("port"), p.get("clock"))
        row = m[listed.index(pc)] if pc in listed and p.get("wf_func") is not None else None
        for i, target in enumerate([*listed, OTHER, ("a", "d"), (None, None)]):
            got = group(tag, target)
            if row is None or i >= len(listed):
                f = 1 if target == pc else 0
            else:
                f = row[i]
            if vc.is_true(vc.eq(f, 0)) if not isinstance(f, int) else f == 0:
                # a pulse without amplitude may be there
                vc.prove("no signal elsewhere", all((not vc.symbolic and abs(wave(x[2])).max() < 1e-9 * max(1, abs(wave(p)).max())) or (
                    vc.symbolic and all(vc.is_true(vc.eq(x[2][k], 0)) for k in ("amp", "G_amp") if k in x[2])) for x in got), (p, got))
                continue
            vc.prove("as often as requested", len(got) == len(mine), (target, p, len(got), len(mine)))
            rest = list(mine)
            for w, t, q in got:
                hit = next((b for b in rest if b[0] == w and vc.is_true(abs(b[1] - t) <= vc.lit("1e-13"))), None)
                vc.prove("at the time of the pulse", hit is not None, (t, p))
                rest.remove(hit)
                if row is not None and i < len(listed) and not vc.symbolic:
                    x, y = wave(q), wave(p)
                    vc.prove("the signal is the requested one times the inverse matrix", len(x) == len(y) and abs(x - f * y).max() < 1e-9 * max(1, abs(y).max()), (p, q))
                    continue
                vc.prove("the same kind of pulse", sorted(map(str, q)) == sorted(map(str, p)), (p, q))
                for k, v in p.items():
                    if k in ("port", "clock"):
                        continue
                    if k in LINEAR and row is not None and i < len(listed):
                        # the amplitude of the derivative of a DRAG pulse is relative to the other one
                        vc.prove("the amplitude is the requested one times the inverse matrix", vc.eq(q[k], v if k == "D_amp" else f * v), (k, p, q))
                    else:
                        vc.prove("the other parameters are those of the pulse", q[k] is v or vc.is_true(vc.eq(q[k], v)), (k, p, q))


@unit("C22.operation", "C22", modes=("prove",), budget=90, targets=[f"{X}:crosstalk_compensation"],
      assumptions=[FLOAT, "_calculate_compensation_matrix: C22.matrix", "an operation of up to 2 pulses (any parameters) and an acquisition, once or twice in a schedule, two listed port-clocks"])
def operation(vc):
    """every pulse on a listed port-clock is played on every port-clock, times the matrix; everything else stays"""
    m = [[vc.real(f"m{i}{j}", -2, 2) for j in range(2)] for i in range(2)]
    check(vc, 0, m)


@unit("C22.schedule", "C22", modes=("fuzz",), fuzz=1500, shards=2, budget=60, targets=[f"{X}:crosstalk_compensation"],
      assumptions=["numpy.linalg", "bounded: random schedules"])
def schedule(vc):
    """the same in nested schedules, loops and conditional sections, however often an operation or schedule is used"""
    m = [[round(vc.real(f"m{i}{j}", -0.3, 0.3), 3) + (1 if i == j else 0) for j in range(3)] for i in range(3)]
    if vc.bool("complex") :
        m[0][1] = m[0][1] + 0.1j
    check(vc, 3, m)


@unit("C22.off", "C22", modes=("fuzz",), fuzz=200, budget=20, targets=[f"{X}:crosstalk_compensation"], assumptions=["bounded: random schedules"])
def off(vc):
    """without a crosstalk matrix a schedule stays as it is"""
    from quantify_scheduler import Schedule

    tags = [0]
    s = Schedule("top")
    pool = []
    for _ in range(vc.length("top entries", 1, 4)):
        s.add(tree(vc, 2, pool, tags))
    before = copy.deepcopy(s)
    o = vc.run(vc.fn(f"{X}:crosstalk_compensation"), s, Config(vc.choice("none", [None, {}])))
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    vc.prove("unchanged", repr(o.value.data) == repr(before.data) and o.value == before)


# --- compiled programs ----------------------------------------------------------------------------------------------------------

@unit("C22.programs", "C22", modes=("fuzz",), fuzz=400, shards=3, budget=100,
      targets=[f"{X}:crosstalk_compensation", "quantify_scheduler.backends.qblox.stack_pulses:stack_pulses", "quantify_scheduler.backends.qblox_backend:hardware_compile"],
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "numpy.linalg", "bounded: random schedules without long pulses and voltage offsets"])
def programs(vc):
    """the compiled programs put out the inverse matrix times the requested signals on listed port-clocks, and the signal itself on others"""
    import numpy as np

    from vlib import qcheck, qgen, qhw, qprop

    flux = [pc for pc in qhw.PORTS if pc in qgen.ANALOG and qgen.is_real(pc)]
    cplx = [pc for pc in qhw.PORTS if pc in qgen.ANALOG and not qgen.is_real(pc)]
    real = vc.bool("flux lines")
    listed = sorted(flux if real else [vc.choice("one", cplx[:2]), cplx[2]])
    n = len(listed)
    M = np.eye(n, dtype=complex)
    xt = {}
    for i in range(n):
        for j in range(n):
            if i != j and vc.length("coupled", 0, 3):
                M[i, j] = vc.choice("x", [0.1, -0.2, 0.05]) + (0 if real else vc.choice("y", [0, 0, 0.1]) * 1j)
                v = complex(M[i, j])
                xt.setdefault(name(listed[i]), {})[name(listed[j])] = v.real if v.imag == 0 else v
    pairs = {name(p) for p in listed if name(p) in xt or any(name(p) in d for d in xt.values())}
    inv = np.linalg.inv(M)
    c = qprop.Case(vc, hw_options={"crosstalk": xt}, ports=[*listed, vc.choice("other", flux + cplx), cplx[2] if real else flux[0]], amp=0.3,
                   overlap=True, min_slot=12, grid=4, max_slots=3, kinds=("pulse", "pulse", "phase", "nested"), big=False, min_amp=0.02,
                   long_ok=False, shuffle=vc.bool("shuffle"), must_compile=True)
    requested = {pc: qcheck.Expect(c.body, pc, c.reps, c.header, c.taken) for pc in listed}
    for i, pc in enumerate(listed):
        if name(pc) not in pairs:
            continue
        sent = [(t, np.asarray(w) * inv[j, i]) for j, src in enumerate(listed) for t, w in requested[src].segs if inv[j, i] != 0]
        if pc not in c.progs:
            vc.prove("every port-clock that needs a signal has a program", not any(np.max(np.abs(w)) > 0 for _t, w in sent), pc)
            continue
        c.progs[pc][0].segs = sent
    c.well_formed()
    c.total()
    c.output("the output is the inverse matrix times the requested signals", 4 * qcheck.LSB)
