"""C09: after pulse compensation the pulses of every compensated port integrate to zero."""
import math

import numpy as np

from engine.core import Fake, unit
from vlib import qcheck, qgen, qhw
from vlib.qprop import config

M = "quantify_scheduler.pulse_compensation"
W = "quantify_scheduler.helpers.waveforms"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"
BB = "cl0.baseband"
REC = f"{M}:_determine_sum_and_end_of_all_pulses"


def sum_end(vc, s, e):
    return vc.fn(f"{M}:SumEnd")(s, e)


def merge_ok(vc, got, parts):
    """got = {port: SumEnd} merges the parts [(port, sum, end, present)]"""
    for port in sorted({p for p, *_ in parts} | set(got)):
        here = [(s, e) for p, s, e in parts if p == port]
        vc.prove("ports with pulses", (port in got) == bool(here), port)
        if port in got and here:
            vc.prove("sum of the areas", vc.eq(got[port].sum, sum(s for s, e in here)))
            vc.prove("end of the last pulse", vc.And([got[port].end >= e for s, e in here] + [
                vc.Or([vc.eq(got[port].end, e) for s, e in here])]))


# -- one pulse ------------------------------------------------------------------------------------------------------------------
@unit("C09.area", "C09", targets=[f"{W}:area_pulse"], fuzz=300, assumptions=[
    FLOAT, "the samples of a waveform are what get_waveform returns (C17)"])
def area(vc):
    """area of a pulse: the mean of its samples times its duration"""
    from engine import garr as G

    dur, rate = vc.real("duration", 0, 1e-5), vc.real("sampling rate", 1e6, 1e10)
    if vc.bool("square"):
        amp = vc.real("amp", -1, 1)
        got = vc.call(vc.fn(f"{W}:area_pulse"), {"wf_func": "quantify_scheduler.waveforms.square", "amp": amp, "duration": dur},
                      rate)
        vc.prove("area of a square pulse", vc.eq(got, amp * dur))
        return
    n = vc.length("samples", 1, 4)
    xs = [vc.real("x", -1, 1) for _ in range(n)]
    if vc.symbolic:
        class Samples(Fake):
            def mean(self):
                return sum(xs) / n
        data = Samples()
        vc.stub(f"{W}:get_waveform", lambda p, r: data)
        info = {"wf_func": "w", "duration": dur}
    else:
        dur, rate = n * 1e-9, 1e9
        info = {"wf_func": "quantify_scheduler.waveforms.interpolated_complex_waveform", "duration": dur, "samples": xs + [0],
                "t_samples": [k * 1e-9 for k in range(n + 1)], "interpolation": "linear"}
    got = vc.call(vc.fn(f"{W}:area_pulse"), info, rate)
    vc.prove("area of a sampled pulse", vc.eq(got, sum(xs) / n * dur, abs=1e-15))


class Op(Fake):
    """an operation as the recursion sees it"""

    has_voltage_offset = False

    def __init__(self, infos, valid=True):
        self.infos, self.valid_pulse = infos, valid

    def __getitem__(self, k):
        return {"pulse_info": self.infos, "acquisition_info": []}[k]

    def get_used_port_clocks(self):
        return {(i["port"], i["clock"]) for i in self.infos}


@unit("C09.operation", "C09", targets=[REC, f"{M}:_merge_sum_and_end", f"{M}:SumEnd.merge"], fuzz=300,
      assumptions=[FLOAT, "operations of at most three pulses"])
def operation(vc):
    """an operation: only baseband pulses of the compensated ports count, at their times"""
    t0 = vc.real("time offset", 0, 1)
    infos, areas, parts = [], {}, []
    for k in range(vc.length("pulses", 0, 3)):
        port, clock = vc.choice("port", ["p", "q", "r"]), vc.choice("clock", [BB, BB, "q0.01"])
        i = {"wf_func": "quantify_scheduler.waveforms.square", "port": port, "clock": clock, "t0": vc.real("t0", 0, 1),
             "duration": vc.real("d", 0, 1), "amp": vc.real("amp", -1, 1)}
        infos.append(i)
        if port in ("p", "q") and clock == BB:
            parts.append((port, i["amp"] * i["duration"], t0 + i["t0"] + i["duration"]))
    valid = vc.bool("is a pulse")
    cond = vc.bool("inside a conditional")
    vc.stub(f"{W}:area_pulse", lambda p, rate: p["amp"] * p["duration"])
    op = Op(infos if valid else [], valid)
    o = vc.run(vc.fn(REC), op, 1e9, t0, {"p", "q"}, cond)
    if valid and cond and parts:
        vc.prove("pulses inside conditionals are rejected", not o.ok)
        return
    vc.prove("total", o.ok, repr(o.exc))
    merge_ok(vc, o.value, parts if valid else [])


# -- loops ----------------------------------------------------------------------------------------------------------------------
class Inner(Fake):
    """the body of a loop or an operation of a schedule; what the recursion gives for it is its contract"""

    def __init__(self, key, duration=0):
        self.key, self.duration = key, duration


def loop_operation(body, reps):
    from quantify_scheduler.operations.control_flow_library import LoopOperation

    op = LoopOperation.__new__(LoopOperation)
    op.data = {"control_flow_info": {"body": body, "repetitions": reps, "t0": 0}, "pulse_info": [], "acquisition_info": []}
    return op


@unit("C09.loop", "C09", modes=("prove",), targets=[REC], assumptions=[
    FLOAT, "modular: the recursive call for the body satisfies the contract that C09.operation, C09.loop and C09.schedule prove"])
def loop(vc):
    """a loop has the area of its body times the repetitions and ends with the last pulse of the last repetition"""
    reps, dur, t0 = vc.int("repetitions", 1), vc.real("duration of the body", 0), vc.real("time offset", 0)
    body = Inner("body", dur)
    f = vc.fn(REC)
    a, e = vc.real("area of the body"), vc.real("end in the body", 0)
    has = vc.bool("body has pulses")
    seen = []

    def contract(op, rate, t, ports, cond):
        seen.append((op, t, cond))
        return {"p": sum_end(vc, a, t + e)} if has else {}

    vc.stub(REC, contract)
    inside = vc.bool("inside a conditional")
    got = f(loop_operation(body, reps), 1e9, t0, {"p", "q"}, inside)  # (the outermost call is not replaced by its contract)
    vc.prove("the body is taken into account at its start", len(seen) == 1 and seen[0][0] is body)
    vc.prove("the body is taken into account at its start", seen[0][1] == t0)
    vc.prove("it stays known that this is inside a conditional", vc.eq(seen[0][2], inside))
    merge_ok(vc, got, [("p", a * reps, t0 + (reps - 1) * dur + e)] if has else [])


@unit("C09.conditional", "C09", targets=[REC], fuzz=100)
def conditional(vc):
    """whether pulses inside a conditional are played is not known: rejected, at any depth of loops and schedules"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.compilation import _determine_absolute_timing
    from quantify_scheduler.operations.pulse_library import IdlePulse, SquarePulse

    op = SquarePulse(amp=0.1, duration=1e-7, port=vc.choice("port", ["p", "r"]), clock=vc.choice("clock", [BB, "q0.01"]))
    hit = op.data["pulse_info"][0]["port"] == "p" and op.data["pulse_info"][0]["clock"] == BB
    cond = False
    for k in range(vc.length("depth", 0, 3)):
        how = vc.choice("how", ["loop", "schedule", "conditional"])
        if how == "loop":
            op = LoopOperation(body=op, repetitions=2)
        elif how == "conditional":
            cond = True
            op = ConditionalOperation(body=op, qubit_name="q0")
        else:
            s = Schedule("s")
            s.add(IdlePulse(1e-7))
            s.add(op)
            op = s
    op = _determine_absolute_timing(op)
    o = vc.run(vc.fn(REC), op, 1e9, 0, {"p"}, False)
    vc.prove("pulses inside conditionals are rejected, others are not", o.ok is not (hit and cond), repr(o.exc))


# -- schedules of any number of operations --------------------------------------------------------------------------------------
class Values(Fake):
    def __init__(self, seq):
        self.seq = seq

    def values(self):
        return self.seq


class Get(Fake):
    def __init__(self, fn):
        self.fn = fn

    def __getitem__(self, k):
        return self.fn(k)


@unit("C09.schedule", "C09", modes=("prove",), targets=[REC, f"{M}:_merge_sum_and_end", f"{M}:SumEnd.merge"], assumptions=[
    FLOAT, "modular: the recursive call for each operation satisfies the contract that C09.operation, C09.loop and C09.schedule prove"])
def schedule(vc):
    """a schedule: sum and last end over all of its operations, of any number, each taken at its time"""
    import z3
    from engine import sym as S
    from engine.rt import LoopSpec
    from quantify_scheduler import Schedule

    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    area, end, has = z3.Function("area", I, R), z3.Function("end", I, R), z3.Function("has", I, B)
    total, last, any_ = z3.Function("total", I, R), z3.Function("last", I, R), z3.Function("any", I, B)
    T = S.term

    def unfold(k):
        """the defining equations of the sum, maximum and existence over the first k + 1 operations"""
        k = T(k)
        return [total(k + 1) == total(k) + z3.If(has(k), area(k), 0),
                last(k + 1) == z3.If(has(k), z3.If(z3.And(any_(k), last(k) > end(k)), last(k), end(k)), last(k)),
                any_(k + 1) == z3.Or(any_(k), has(k))]

    p = S.cur()
    p.assume(S.wrap(z3.And(total(0) == 0, z3.Not(any_(0)), last(0) == 0)))
    t0 = vc.real("time offset", 0)
    f = vc.fn(REC)

    def make(i, name):
        return {"abs_time": vc.real(name + ".t", 0), "operation_id": ("op", i)}

    def inv(st, k):
        d = st.pulses_sum_end
        if type(d) is not dict or set(d) - {"p"}:
            raise S.Unsupported("another representation of the intermediate result")
        kk = T(k)
        out = [("ports with pulses", S.wrap(any_(kk) == z3.BoolVal("p" in d)))]
        if "p" in d:
            out += [("sum of the areas", S.wrap(T(S.as_real(S.num(d["p"].sum))) == total(kk))),
                    ("last end", S.wrap(T(S.as_real(S.num(d["p"].end))) == last(kk)))]
        else:
            out.append(("nothing so far", S.wrap(total(kk) == 0)))
        return out

    def havoc(st):
        if S.cur().fork(vc.bool("some so far").t):
            return {"pulses_sum_end": {"p": sum_end(vc, vc.real("sum so far"), vc.real("end so far"))}}
        return {"pulses_sum_end": {}}

    seq = vc.seq("operations", make, lo=0, spec=LoopSpec(inv, havoc=havoc, label="operations of the schedule"))
    s = Schedule("s")
    s.data["schedulables"] = Values(seq)
    s.data["operation_dict"] = Get(lambda k: Inner(k))
    stage = []

    inside = vc.bool("inside a conditional")

    def contract(op, rate, t, ports, cond):
        i = op.key[1]
        stage.append(i)
        for c in unfold(i):
            p2 = S.cur()
            p2.assume(S.wrap(c))
        vc.prove("an operation is taken at its time", t == t0 + seq.at(i)["abs_time"])
        vc.prove("it stays known that this is inside a conditional", vc.eq(cond, inside))
        if S.cur().fork(has(T(i))):
            return {"p": sum_end(vc, S.wrap(area(T(i))), S.wrap(end(T(i))))}
        return {}

    vc.stub(REC, contract)
    got = f(s, 1e9, t0, {"p", "q"}, inside)  # (the outermost call is not replaced by its contract)
    n = T(seq.n)
    vc.prove("ports with pulses", S.wrap(any_(n) == z3.BoolVal("p" in got)))
    if "p" in got:
        vc.prove("sum of the areas", S.wrap(T(S.as_real(S.num(got["p"].sum))) == total(n)))
        vc.prove("end of the last pulse", S.wrap(T(S.as_real(S.num(got["p"].end))) == last(n)))


# -- the compensating pulse -------------------------------------------------------------------------------------------------------
@unit("C09.pulse", "C09", modes=("prove",), targets=[f"{M}:_determine_compensation_pulse"], assumptions=[
    FLOAT, "modular: areas and ends of the body are what _determine_sum_and_end_of_all_pulses gives (C09.schedule)",
    "one port asked for and one other (ports are handled one by one)"])
def pulse(vc):
    """opposite area, amplitude within the limit, on the grid, from the end of the last pulse; other ports are not touched"""
    a, e = vc.real("area", -1, 1), vc.real("end", 0, 1)
    grid, limit = vc.real("grid", 0), vc.real("limit", 0)
    vc.assume(vc.And(grid > 0, limit > 0))
    f = vc.fn(f"{M}:_determine_compensation_pulse")
    has = vc.bool("port has pulses")
    other = vc.bool("another port has pulses")
    d = {}
    if has:
        d["p"] = sum_end(vc, a, e)
    if other:
        d["q"] = sum_end(vc, vc.real("other area", -1, 1), vc.real("other end", 0, 1))
    vc.stub(REC, lambda op, rate, t, ports, cond: d)
    got = vc.call(f, Op([]), {"p": limit}, grid, 1e9)
    vc.prove("other ports are not touched", set(got) <= {"p"})
    if "p" not in got:
        vc.prove("compensated if there is anything to compensate", vc.Or(not has, a == 0))
        return
    g = got["p"]
    vc.prove("starts when the last pulse has ended", g.start >= e)
    vc.prove("opposite area", vc.eq(g.amp * g.duration, -a))
    n = g.duration / grid
    vc.prove("a whole number of grid steps", vc.floor(n) == n)
    vc.prove("amplitude within the limit", vc.And(g.amp <= limit, g.amp >= -limit))


# -- whole schedules ---------------------------------------------------------------------------------------------------------------
FL = [("q0:fl", BB), ("q1:fl", BB), ("q0:mw", "q0.01"), ("c0:mw", "c0.if")]


def walk(op, t, out):
    """all pulses of an operation or schedule with absolute times: (port, clock, start, duration, wf_func, info)"""
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    if isinstance(op, ScheduleBase):
        for s in op.schedulables.values():
            walk(op.operations[s["operation_id"]], t + s["abs_time"], out)
    elif isinstance(op, LoopOperation):
        for k in range(op.data["control_flow_info"]["repetitions"]):
            walk(op.body, t + k * op.body.duration, out)
    else:
        for i in op.data["pulse_info"]:
            if i["port"] is not None:
                out.append([i["port"], i["clock"], round((t + i["t0"]) * 1e9), round(i["duration"] * 1e9, 3), i])
    return out


class Body:
    """a body to compensate and the settings"""

    def __init__(self, vc, reps=(1, 1), depth=2, grid=None):
        from quantify_scheduler import Schedule
        from quantify_scheduler.operations.control_flow_library import LoopOperation
        from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation

        self.vc = vc
        self.gen = qgen.Gen(vc, ports=FL, kinds=("pulse", "pulse", "nested"), depth=depth, grid=grid, big=False, overlap=False, long_ok=False,
                            amp=0.9, max_slots=4, reps=reps, pulse_kinds=("square", "ramp", "drag", "numerical"))
        inner = Schedule("body")
        self.body = self.gen.body(depth, inner)
        op = inner
        self.times = 1
        if vc.length("direct loop", 0, 3) == 0:
            self.times = vc.length("direct loop repetitions", 1, 5)
            op = LoopOperation(body=inner, repetitions=self.times)
        self.limits = {p: round(vc.real("limit", 0.05, 0.9), 3) for p in ("q0:fl", "q1:fl") if vc.bool("compensated")}
        self.grid = vc.choice("grid", [4, 4, 8, 20, 100]) * 1e-9
        self.op = PulseCompensation(body=op, max_compensation_amp=dict(self.limits), time_grid=self.grid, sampling_rate=1e9)
        flat = [(k * self.body.dur + t, it) for k in range(self.times) for t, it in self.body.flat(0)]
        self.pulses = [(it.pc[0], it.pc[1], t, it.n, it.wave) for t, it in flat if it.kind == "pulse"]
        self.area, self.end = {}, {}
        for p, c, t, n, w in self.pulses:
            if c == BB and p in self.limits:
                self.area[p] = self.area.get(p, 0) + float(np.sum(w.real))
                self.end[p] = max(self.end.get(p, 0), t + n)


def wrap(vc, op):
    """the operation inside nested schedules, loops and conditionals: (operation, the kinds, how often it is executed)"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import LoopOperation

    kinds, times = [], 1
    for _ in range(vc.length("wrappers", 0, 2)):
        kinds.append(vc.choice("wrapper", ["nested", "loop"]))
        inner = Schedule("wrapped")
        inner.add(op)
        n = vc.length("iterations", 1, 3) if kinds[-1] == "loop" else 1
        times *= n
        op = LoopOperation(body=inner, repetitions=n) if kinds[-1] == "loop" else inner
    return op, kinds, times


def unwrap(sched, kinds):
    """the schedule that has the operation"""
    for k in reversed(kinds):
        (sched,) = sched.operations.values()
        if k == "loop":
            sched = sched.body
    return sched


@unit("C09.body", "C09", modes=("fuzz",), fuzz=600, shards=2, targets=[
    f"{M}:process_compensation_pulses", f"{M}:_determine_compensation_pulse", REC])
def body(vc):
    """the schedule after compensation: the body, and one square pulse per port that balances it"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.compilation import _determine_absolute_timing

    b = Body(vc)
    s = Schedule("s")
    op, kinds, _ = wrap(vc, b.op)
    s.add(op)
    o = vc.run(vc.fn(f"{M}:process_compensation_pulses"), s)
    vc.prove("total", o.ok, repr(o.exc))
    got = walk(unwrap(_determine_absolute_timing(o.value), kinds), 0, [])
    rest = list(got)
    for p, c, t, n, w in b.pulses:
        hit = [g for g in rest if g[:3] == [p, c, t] and abs(g[3] - n) < 1e-6]
        vc.prove("the body is as it was", bool(hit), (p, c, t, n))
        rest.remove(hit[0]) if hit else None
    for g in rest:
        vc.prove("ports that were not asked for are not touched", g[0] in b.limits and g[1] == BB, g)
    for p, lim in b.limits.items():
        mine = [g for g in rest if g[0] == p]
        if p not in b.area:
            vc.prove("ports without pulses are not touched", not mine, mine)
            continue
        tot = b.area[p]
        for g in mine:
            i = g[4]
            vc.prove("a square pulse", i["wf_func"].endswith("square"), i)
            vc.prove("starts when the last pulse of the port has ended", g[2] >= b.end[p], (g, b.end[p]))
            vc.prove("amplitude within the limit", abs(i["amp"]) <= lim * (1 + 1e-9), (i["amp"], lim))
            k = i["duration"] / b.grid
            vc.prove("a whole number of grid steps", abs(k - round(k)) < 1e-6 and round(k) >= 1, (k, b.grid))
            tot += i["amp"] * i["duration"] * 1e9
        vc.prove("the net area is zero", abs(tot) < 1e-9 * (1 + sum(len(x[4]) for x in b.pulses)), (p, tot, b.area[p]))


@unit("C09.program", "C09", modes=("fuzz",), fuzz=250, shards=4, targets=[f"{M}:process_compensation_pulses"])
def program(vc):
    """the output of the compiled programs integrates to zero on the compensated ports"""
    b = Body(vc, reps=(1, 2), depth=1, grid=4)
    s = qhw.new_schedule(repetitions=b.gen.reps)
    op, kinds, times = wrap(vc, b.op)
    s.add(op)
    base, header = qcheck.calibrate()
    o = vc.run(qhw.compile_, s, None, config_=config())
    # (the balancing pulse starts when the last pulse has ended; the hardware plays nothing while a loop is still running)
    loops = [b.times > 1] + [not getattr(it, "nested", False) for it in b.body.items if it.kind == "loop"]
    loops.append("loop" in kinds)
    if not any(loops):
        vc.prove("a realisable schedule is accepted", o.ok, repr(o.exc)[:500])
    if not o.ok:
        return
    for p in b.limits:
        if p not in b.area:
            continue
        q = qcheck.seq_of(o.value, (p, BB))
        vc.prove("every used port-clock has a program", q is not None, p)
        a = qcheck.Actual(q, base)
        vc.prove("every instruction is within the hardware's ranges", not a.problems, (p, a.problems[:3]))
        tot, n = integral(a, p), sum(len(x[4]) for x in b.pulses) + 100
        vc.prove("the output integrates to zero", abs(tot) <= 2 * qcheck.LSB * n * b.gen.reps * 3 * times, (p, tot, b.area[p]))


def integral(a, port):
    """time integral (ns) of output path I (for the first output) of a program"""
    tot, k = 0.0, 0
    path = 0
    for t, wi, wq in a.segs:
        g = a.gain.at(t)[path] / qcheck.FULL
        tot += g * float(np.sum((wi, wq)[path]))
    pts = a.offs.points()
    for t0, t1 in zip(pts, pts[1:]):
        v = a.offs.at(t0)
        tot += (v.real, v.imag)[path] * (t1 - t0)
    if pts:
        tot += 1e9 * (abs(a.offs.at(pts[-1])) > 0)
    return tot
