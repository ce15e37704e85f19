"""C21: the automatic RF switch is on exactly around microwave pulses."""
from __future__ import annotations

import copy
import warnings

from engine.core import Fake, unit

R = "quantify_scheduler.backends.qblox.auto_rf_switch"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"


class P(Fake):
    """pulse as collected from the schedule"""

    def __init__(self, abs_time, duration, port="p:mw", clock="c"):
        self.abs_time, self.duration, self.port, self.clock = abs_time, duration, port, clock
        self.schedulable_key = "k"

    @property
    def end_time(self):
        return self.abs_time + self.duration


@unit("C21.windows", "C21", modes=("prove",), targets=[f"{R}:_merge_pulses_into_windows"], budget=200,
      assumptions=[FLOAT, "the pulses are sorted by their starts (they are: auto_rf_switch_dressing, C21.pass)"])
def windows(vc):
    """any number of pulses: each lies in a window, windows are more than two buffers apart, nothing else is in a window"""
    from engine import sym as S
    from engine.rt import Ghost, LoopSpec

    p, z3 = S.cur(), S.z3
    tf, df = z3.Function("T", z3.IntSort(), z3.RealSort()), z3.Function("D", z3.IntSort(), z3.RealSort())
    b = vc.real("buffer", 0, 1e-3)
    x = vc.real("instant")  # an instant farther than a buffer from any pulse
    s = vc.int("pulse K", 0)
    eps = vc.lit("1e-15")

    def T(i):
        return S.wrap(tf(S.term(i)))

    def E(i):
        return T(i) + S.wrap(df(S.term(i)))

    def facts(i):
        p.assume(S.wrap(df(S.term(i))) >= 0)
        p.assume(S.or_(x < T(i) - b - eps, x > E(i) + b + eps))
        p.assume(S.implies(i <= s, T(i) <= T(s)))
        p.assume(S.implies(i >= s, T(i) >= T(s)))

    facts(s)

    class Found(Ghost):
        def __init__(self, has, far, last, some, apart):
            self.has, self.far, self.last, self.some, self.apart = has, far, last, some, apart

        def append(self, w):
            start, end = w
            self.has = S.or_(self.has, S.and_(start <= T(s), E(s) <= end))
            self.far = S.and_(self.far, S.or_(x < start - b, x > end + b))
            self.apart = S.and_(self.apart, start <= end, S.implies(self.some, start > self.last + 2 * b))
            self.last, self.some = end, True

    def make(i, name):
        facts(i)
        p.assume(S.implies(i > 0, T(i - 1) <= T(i)))
        return P(T(i), S.wrap(df(S.term(i))))

    def inv(st, k):
        w, cs, ce = st.windows, st.current_start, st.current_end
        if not isinstance(w, Ghost):
            f = Found(False, True, vc.lit("0"), False, True)
            for y in w:
                f.append(y)
            w = f
        facts(k - 1)
        return [("the current window starts before the next pulses", S.and_(cs <= T(k - 1), cs <= ce)),
                ("pulse K is covered once it is passed", S.implies(s < k, S.or_(w.has, S.and_(cs <= T(s), E(s) <= ce)))),
                ("nothing else is covered", S.and_(w.far, S.or_(x < cs - b, x > ce + b))),
                ("windows are apart", S.and_(w.apart, S.implies(w.some, cs > w.last + 2 * b)))]

    def havoc(st):
        return {"windows": Found(p.fresh("bool", "has"), p.fresh("bool", "far"), p.fresh("real", "last"),
                                 p.fresh("bool", "some"), p.fresh("bool", "apart")),
                "current_start": p.fresh("real", "current_start"), "current_end": p.fresh("real", "current_end")}

    seq = vc.seq("pulses", make, lo=1, spec=LoopSpec(inv, havoc=havoc, label="pulses"))
    vc.assume(s < seq.n)
    out = vc.call(vc.fn(f"{R}:_merge_pulses_into_windows"), seq, b)
    if not isinstance(out, Ghost):
        f = Found(False, True, vc.lit("0"), False, True)
        for y in out:
            f.append(y)
        out = f
    vc.prove("every pulse is in a window", out.has)
    vc.prove("instants farther than a buffer from all pulses are off", out.far)
    vc.prove("windows with their buffers do not overlap", out.apart)


def table(windows_, x, b):
    """in how many windows, with buffers, an instant is"""
    return sum(1 for a, e in windows_ if a - b <= x <= e + b)


@unit("C21.offsets", "C21", modes=("bounded", "fuzz"), fuzz=400, targets=[f"{R}:_voltage_offset_events_to_pulses"],
      assumptions=[FLOAT, "bounded: up to 4 offsets on up to two port-clocks (symbolic run), up to 8 (concrete)"])
def offsets(vc):
    """a stretch with an offset that is switched off again counts like a pulse, per port-clock, whatever the order"""
    n = vc.length("offsets", 0, 4 if vc.symbolic else 8)
    cls = vc.fn(f"{R}:VoltageOffsetEvent")
    times = [vc.real(f"t{i}", 0, 1e-3) for i in range(n)]
    for i in range(n):
        for j in range(i):
            vc.assume(vc.Not(times[i] == times[j]))
    ev = [cls(abs_time=times[i], port=vc.choice(f"port{i}", ["a:mw", "b:mw"]) if n < 4 or not vc.symbolic else "a:mw", clock="c",
              is_nonzero=vc.choice(f"on{i}", [True, False])) for i in range(n)]
    out = vc.call(vc.fn(f"{R}:_voltage_offset_events_to_pulses"), ev)
    got = sorted([(q.port, q.clock) for q in out])
    want = []
    for port in ("a:mw", "b:mw"):
        on = None
        for e in sorted((e for e in ev if e.port == port), key=lambda e: e.abs_time):
            if e.is_nonzero and on is None:
                on = e.abs_time
            elif not e.is_nonzero and on is not None:
                want.append((port, "c", on, e.abs_time))
                on = None
    vc.prove("one for each stretch", got == sorted((a, b) for a, b, _, _ in want), (got, want))
    for port in ("a:mw", "b:mw"):
        g = sorted([q for q in out if q.port == port], key=lambda q: q.abs_time)
        for q, (_, _, a, b) in zip(g, [w for w in want if w[0] == port]):
            vc.prove("from the first offset until it is switched off",
                     vc.And(vc.eq(q.abs_time, a), vc.eq(q.abs_time + q.duration, b)))


@unit("C21.insert", "C21", modes=("prove", "fuzz"), fuzz=200, targets=[f"{R}:_insert_rf_switch_operation"],
      assumptions=[FLOAT, "hash() of symbolic operation content identifies the term (C14 decides hashing itself)"])
def insert(vc):
    """the switch is on from a buffer before the window (not before zero) until a buffer after it; nothing else changes"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import SquarePulse

    a, d, b = vc.real("start", 0, 1), vc.real("length", 0, 1), vc.real("buffer", 0, 1e-3)
    s = Schedule("s")
    s.add(SquarePulse(amp=0.5, duration=20e-9, port="p:mw", clock="cl0.baseband"), label="x")
    s.schedulables["x"]["abs_time"] = a
    ops, names = dict(s.operations), list(s.schedulables)
    was = dict(s.schedulables["x"].data)
    vc.call(vc.fn(f"{R}:_insert_rf_switch_operation"), schedule=s, port="p:mw", clock="c", start_time=a, end_time=a + d, ramp_buffer=b)
    new = [k for k in s.schedulables if k not in names]
    vc.prove("one operation more", len(new) == 1 and [k for k in s.schedulables if k not in new] == names, new)
    vc.prove("the others stay", all(s.operations[k] is o for k, o in ops.items()) and
             all(vc.is_true(vc.eq(was[k], v)) if k == "abs_time" else was[k] is v for k, v in s.schedulables["x"].data.items()))
    w = s.schedulables[new[0]]
    op = s.operations[w["operation_id"]]
    vc.prove("a switch operation on the port and clock", type(op).__name__ == "RFSwitchToggle" and
             len(op.data["pulse_info"]) == 1 and op.data["pulse_info"][0]["port"] == "p:mw" and
             op.data["pulse_info"][0]["clock"] == "c" and op.data["pulse_info"][0]["marker_pulse"] is True)
    i = op.data["pulse_info"][0]
    t = w["abs_time"] + i["t0"]
    vc.prove("on from a buffer before", vc.Or(vc.eq(t, a - b), vc.And(a <= b, vc.eq(t, 0))))
    vc.prove("off a buffer after", vc.eq(t + i["duration"], a + d + b))


# -- compiled programs --------------------------------------------------------------------------------------------------------------
PCS = [("q0:mw", "q0.01"), ("q0:mw", "q0.12"), ("q1:mw", "q1.01"), ("q0:res", "q0.ro"), ("q0:fl", "cl0.baseband")]
_CFG = {}


def config(buffer, enabled=True):
    from vlib import qhw

    if (buffer, enabled) not in _CFG:
        hw = qhw.modify(qhw.config(), m2={"rf_output_on": False}, m4={"rf_output_on": False})
        if enabled is not None:
            hw["compiler_options"] = {"auto_rf_switch": enabled, "auto_rf_switch_ramp_buffer": buffer * 1e-9}
        _CFG[buffer, enabled] = qhw.compiler_config(hw)
    return _CFG[buffer, enabled]


class Gen:
    """random schedules; self.on[pc]: (start, end) in ns of everything that is put out on a port-clock"""

    def __init__(self, vc, buffer):
        self.vc, self.buffer = vc, buffer
        self.again = {}

    def pulse(self, pc):
        from quantify_scheduler.operations import pulse_library as pl

        vc = self.vc
        n = 4 * vc.length("pulse", 3, 50)
        k = vc.choice("shape", ["square", "square", "drag", "long", "later", "double"])
        kw = dict(port=pc[0], clock=pc[1])
        if pc[0] == "q0:fl" or k == "square":
            return pl.SquarePulse(amp=0.3, duration=n * 1e-9, **kw), [(0, n)]
        if k in ("later", "double"):
            t0 = 4 * vc.length("t0", 0, 40)
            op = pl.SquarePulse(amp=0.3, duration=n * 1e-9, t0=t0 * 1e-9, **kw)
            if k == "later":
                return op, [(t0, t0 + n)]
            t1 = t0 + n + vc.choice("between", [4, 2 * self.buffer // 4 * 4, 2 * self.buffer // 4 * 4 + 8, 500])
            op.add_pulse(pl.SquarePulse(amp=-0.3, duration=40e-9, t0=t1 * 1e-9, **kw))
            return op, [(t0, t0 + n), (t1, t1 + 40)]
        if k == "drag":
            return pl.DRAGPulse(G_amp=0.2, D_amp=0.1, phase=0, duration=n * 1e-9, **kw), [(0, n)]
        return pl.SquarePulse(amp=0.2, duration=1e-6, **kw), [(0, 1000)]

    def body(self, depth, pad):
        """(schedule, its length in ns, [(port-clock, start, end)])"""
        from quantify_scheduler import Schedule
        from quantify_scheduler.operations import pulse_library as pl
        from quantify_scheduler.operations.control_flow_library import LoopOperation

        vc, b = self.vc, self.buffer
        s = Schedule(f"s{depth}", repetitions=vc.length("repetitions", 1, 2) if depth == 2 else 1)
        for c in ("q0.01", "q0.12", "q1.01", "q0.ro"):
            if depth == 2:
                from quantify_scheduler.resources import ClockResource
                from vlib import qhw

                s.add_resource(ClockResource(c, qhw.CLOCKS[c]))
        ref = s.add(pl.IdlePulse(pad * 1e-9)) if pad else None
        t, on = pad, []
        for _ in range(vc.length("slots", 1, 5)):
            t += vc.choice("gap", [0, 4, 8, 2 * b - 4, 2 * b, 2 * b + 4, 2 * b + 8, 3 * b, 400]) // 4 * 4
            kind = vc.choice("what", ["pulse", "pulse", "pulse", "offset", "two"] + (["nested", "loop"] if depth else []))
            at = dict(ref_op=ref, ref_pt="start", rel_time=t * 1e-9) if ref else {}
            if ref is None:
                ref = s.add(pl.IdlePulse(4e-9))
                at = dict(ref_op=ref, ref_pt="start", rel_time=t * 1e-9)
            if kind in ("pulse", "two"):
                end = t
                for pc in ([vc.choice("pc", PCS)] if kind == "pulse" else vc.choice("pcs", [[PCS[0], PCS[2]], [PCS[3], PCS[0]]])):
                    key = (pc, vc.length("kept", 0, 2))
                    if key not in self.again:
                        self.again[key] = self.pulse(pc)
                    op, parts = self.again[key]
                    s.add(op, **at)
                    on += [(pc, t + x, t + y) for x, y in parts]
                    end = max(end, t + parts[-1][1])
                t = end
            elif kind == "offset":
                pc, n = vc.choice("pc", [PCS[0], PCS[2]]), 4 * vc.length("hold", 2, 100)
                # (off again by its own operation)
                s.add(pl.VoltageOffset(offset_path_I=0.25, offset_path_Q=0.0, port=pc[0], clock=pc[1]), **at)
                at["rel_time"] = (t + n) * 1e-9
                s.add(pl.VoltageOffset(offset_path_I=0.0, offset_path_Q=0.0, port=pc[0], clock=pc[1]), **at)
                on.append((pc, t, t + n))
                t += n + 4
            else:
                loop = kind == "loop"
                inner, n, w = self.body(depth - 1, (2 * b + 8 + 3) // 4 * 4 if loop else vc.choice("start", [0, 4, 100]))
                if loop:
                    r = vc.length("iterations", 1, 3)
                    t += (b + 8 + 3) // 4 * 4  # (a window that is not finished when the loop begins: known finding)
                    at["rel_time"] = t * 1e-9
                    s.add(LoopOperation(body=inner, repetitions=r), **at)
                    on += [(pc, t + i * n + x, t + i * n + y) for i in range(r) for pc, x, y in w]
                    t += r * n + (b + 8 + 3) // 4 * 4
                else:
                    s.add(inner, **at)
                    on += [(pc, t + x, t + y) for pc, x, y in w]
                    t += n
        tail = (2 * b + 8 + 3) // 4 * 4
        s.add(pl.IdlePulse(tail * 1e-9), ref_op=ref, ref_pt="start", rel_time=t * 1e-9)
        return s, t + tail, on


def merged(stretches, b):
    out = []
    for a, e in sorted(stretches):
        if out and a - b <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], e + b))
        else:
            out.append((max(0, a - b), e + b))
    return out


def marker(program, base, header, length, reps):
    """[(on, off)] of each repetition"""
    from vlib import q1sim

    tr = q1sim.run(program)
    level, changes = 0, []
    for e in tr.events:
        m = 1 if e.state["mrk"] else 0
        if m != level:
            changes.append((e.t - base, m))
            level = m
    return changes, tr.problems


def portclock(module, q):
    from vlib import qhw

    for pc, (mod, ch, _kind) in qhw.PORTS.items():
        if module == f"cluster0_module{mod}" and q.channel_name == ch:
            # (two clocks on one output have different intermediate frequencies)
            return ("q0:mw", "q0.12") if pc == ("q0:mw", "q0.01") and q.modulation_freq < 0 else pc
    raise AssertionError(f"unknown sequencer {module} {q.channel_name}")


@unit("C21.programs", "C21", modes=("fuzz",), fuzz=700, budget=110, shards=4,
      targets=[f"{R}:auto_rf_switch_dressing", f"{R}:_collect_all_mw_events_recursive", f"{R}:_merge_pulses_into_windows",
               f"{R}:_voltage_offset_events_to_pulses", f"{R}:_insert_rf_switch_operation"],
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "bounded: random schedules; loops whose bodies begin and end with a pause of "
                   "more than two buffers (others: known finding)"])
def programs(vc):
    """the switch of every compiled program is on exactly around what is put out; the rest is what it is without"""
    from vlib import qcheck, qhw

    b = vc.choice("buffer", [20, 20, 12, 40, 100, 4])
    g = Gen(vc, b)
    s, length, on = g.body(2, vc.choice("start", [0, 4, 200]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base, header = qcheck.calibrate()
        o = vc.run(qhw.compile_, s, None, config_=config(b))
        plain = vc.run(qhw.compile_, s, None, config_=config(b, vc.choice("otherwise", [False, None])))
    if not plain.ok:  # cannot be compiled anyway
        vc.assume(False)
        return
    vc.prove("accepted like without the switch", o.ok, repr(o.exc)[:400])
    got, was = qhw.sequencers(o.value), qhw.sequencers(plain.value)
    used = {pc for pc, _, _ in on}
    vc.prove("the same sequencers", sorted(got) == sorted(was), (sorted(got), sorted(was)))
    for k, q in got.items():
        pc = portclock(k[0], q)
        changes, problems = marker(q.sequence["program"], base, header, length, s.repetitions)
        vc.prove("valid instructions", not problems, (k, problems[:3]))
        want = []
        if pc[0].endswith(":mw"):
            for r in range(s.repetitions):
                for x, y in merged([(x, y) for p, x, y in on if p == pc], b):
                    want += [(x + r * (length + header), 1), (y + r * (length + header), 0)]
        vc.prove("on exactly around the pulses", changes == want, (pc, "buffer", b, "program", changes[:8], "expected", want[:8],
                                                                 sorted(x[1:] for x in on if x[0] == pc)[:9]))
        x, y = (qcheck.Actual(z, base) for z in (q, was[k]))
        vc.prove("everything else is as without the switch", x.tr.total == y.tr.total and
                 [(t, repr(a), repr(c)) for t, a, c in x.segs] == [(t, repr(a), repr(c)) for t, a, c in y.segs], pc)


@unit("C21.loop-edge", "C21", modes=("fuzz",), fuzz=2, targets=[f"{R}:auto_rf_switch_dressing"],
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "one fixed schedule per case (known finding)"])
def loop_edge(vc):
    """pulses closer than a buffer to the beginning or the end of a loop: the switch is on in every iteration"""
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from vlib import q1sim, qhw

    p = pl.SquarePulse(amp=0.3, duration=100e-9, port="q0:mw", clock="q0.01")
    bodies = {"begins with the pulse": (p, pl.IdlePulse(1e-6)), "ends with the pulse": (pl.IdlePulse(1e-6), p), "is the pulse": None}
    wrong = []
    for case, ops in bodies.items():
        body = p
        if ops:
            body = qhw.new_schedule()
            for x in ops:
                body.add(x)
        s = qhw.new_schedule()
        s.add(pl.IdlePulse(1e-6))
        s.add(LoopOperation(body=body, repetitions=3))
        s.add(pl.IdlePulse(1e-6))
        o = vc.run(qhw.compile_, s, None, config_=config(20))
        ok = False
        if o.ok:
            (q,) = qhw.sequencers(o.value).values()
            tr = q1sim.run(q.sequence["program"])
            marks = [(e.t, bool(e.state["mrk"])) for e in tr.events]
            plays = [e.t for e in tr.events if e.kind == "play"]
            ok = len(plays) == 3 and all([m for x, m in marks if x <= t][-1] for u in plays for t in (u - 1, u, u + 119))
        if not ok:
            wrong.append(case)
    vc.prove("the switch is on around every pulse of a loop", not wrong, str(wrong))
