"""C08: overlapping pulses are merged without changing the output."""
import numpy as np

from engine.core import unit

P = "quantify_scheduler.backends.qblox.stack_pulses"
T = [f"{P}:stack_pulses", f"{P}:_construct_pulses_by_port_clock", f"{P}:_construct_pulses_by_interval",
     f"{P}:_stack_pulses_by_interval", f"{P}:_stack_arbitrary_pulses", f"{P}:_stack_square_pulses"]
NS = 10**9


def ns(vc, k):
    return k / NS if vc.symbolic else round(k * 1e-9, 9)


# --- what a schedule puts out
def walk(sched, t0=0.0):
    """(absolute time, operation) of everything in a timed schedule; loops unrolled"""
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    def op_(op, t):
        if isinstance(op, ScheduleBase):
            yield from walk(op, t)
        elif isinstance(op, LoopOperation):
            for k in range(op.repetitions):
                yield from op_(op.body, t + k * op.body.duration)
        elif isinstance(op, ConditionalOperation):
            yield from op_(op.body, t)
        else:
            yield t, op

    for s in sched.schedulables.values():
        yield from op_(sched.operations[s["operation_id"]], t0 + s["abs_time"])


def pulses(sched):
    return [(t + p["t0"], p) for t, op in walk(sched) for p in op.data["pulse_info"] if p.get("wf_func")]


def others(sched):
    """everything that is not a played pulse"""
    out = []
    for t, op in walk(sched):
        for k in ("acquisition_info", "logic_info", "gate_info"):
            if op.data.get(k):
                out.append((round(t * 1e9), k, repr(op.data[k])))
        for p in op.data["pulse_info"]:
            if not p.get("wf_func") and p.get("port") is not None:
                out.append((round((t + p["t0"]) * 1e9), "offset", repr({k: v for k, v in p.items() if k != "t0"})))
    return sorted(out)


def signal(sched, n):
    from quantify_scheduler.helpers.waveforms import get_waveform

    out = {}
    for t, p in pulses(sched):
        w = np.asarray(get_waveform(p, sampling_rate=1e9))
        a = round(t * 1e9)
        s = out.setdefault((p["port"], p["clock"]), np.zeros(n, dtype=complex))
        s[a:a + len(w)] += w
    return out


def clashes(sched):
    by = {}
    for t, p in pulses(sched):
        a, d = round(t * 1e9), round(p["duration"] * 1e9)
        if d:
            by.setdefault((p["port"], p["clock"]), []).append((a, a + d))
    for pc, iv in by.items():
        iv.sort()
        for (a, b), (c, d) in zip(iv, iv[1:]):
            if c < b:
                yield pc, (a, b), (c, d)


def body(vc, s, depth, hi):
    """adds random operations at random times, and their absolute times"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends.qblox.operations.pulse_library import SimpleNumericalPulse
    from quantify_scheduler.operations import acquisition_library as al
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.operation import Operation

    end = 0
    pcs = [("q0:mw", "q0.01"), ("q0:mw", "q0.12"), ("q0:fl", "cl0.baseband")]
    plan = []

    def one(j):
        pc = vc.choice("pc", [pcs[0], *pcs])
        d, t0 = vc.int("d", 1, hi), vc.choice("t0", [0, 0, vc.int("t0v", 0, 20)])
        a = round(vc.real("amp", -0.4, 0.4), 3)
        k = vc.choice("pulse", ["square", "square", "ramp", "drag", "numerical", "marker", "complex"])
        on = dict(port=pc[0], clock=pc[1], t0=t0 * 1e-9)
        if k == "square":
            return pl.SquarePulse(amp=a, duration=d * 1e-9, **on)
        if k == "complex":
            return pl.SquarePulse(amp=complex(a, 0.1), duration=d * 1e-9, **on)
        if k == "ramp":
            return pl.RampPulse(amp=a, offset=0.1, duration=d * 1e-9, **on)
        if k == "drag":
            return pl.DRAGPulse(G_amp=a, D_amp=0.1, phase=30, duration=(d + 1) * 1e-9, **on)
        if k == "numerical":
            return SimpleNumericalPulse([a + 0.01 * i for i in range(d)], **on)
        return pl.MarkerPulse(duration=d * 1e-9, port="m:out", t0=t0 * 1e-9)

    for j in range(vc.length("ops", 1, 6)):
        t = vc.int("t", 0, hi)
        k = vc.choice("op", ["pulse", "pulse", "pulse", "several", "measure", "acq"] + (["loop", "nested", "cond"] if depth else []))
        if k == "pulse":
            op = one(j)
        elif k == "several":
            op = Operation(f"several{j}")
            for i in range(vc.length("n", 2, 3)):
                op.add_pulse(one(i))
        elif k in ("acq", "measure"):
            op = al.SSBIntegrationComplex(port="q0:res", clock="q0.ro", duration=20e-9, acq_channel=j, acq_index=0)
            if k == "measure":
                m = Operation(f"measure{j}")
                for i in range(vc.length("n", 1, 2)):
                    m.add_pulse(one(i))
                m.add_acquisition(op)
                op = m
        else:
            op = Schedule(f"inner{j}")
            body(vc, op, depth - 1, hi // 2)
            if k == "loop":
                op = LoopOperation(body=op, repetitions=vc.length("reps", 1, 3))
            elif k == "cond":
                op = ConditionalOperation(body=op, qubit_name="q0")
        if k in ("loop", "nested", "cond"):
            t = max(t, end)  # (sections do not run at the same time as anything else)
            end = t + round(op.duration * 1e9)
        elif any(x in ("loop", "nested", "cond") for *_, x in plan):
            t += end
        plan.append((t, op, k))
        if k not in ("loop", "nested", "cond"):
            end = max(end, t + round(op.duration * 1e9) + 20)
    ref = None
    for t, op, _k in plan:
        x = s.add(op) if ref is None else s.add(op, ref_op=ref, ref_pt="start", rel_time=(t - t_ref) * 1e-9)
        if ref is None:
            ref, t_ref = x, t
    from quantify_scheduler.compilation import _determine_absolute_timing

    _determine_absolute_timing(s, time_unit="physical")


@unit("C08.pass", "C08", modes=("fuzz",), targets=T, fuzz=4000, shards=3, budget=100,
      assumptions=["bounded: random schedules, at most 6 operations per body, two levels of nesting"])
def merged(vc):
    """same sum at every instant; everything else untouched; no overlap left; idempotent"""
    import copy

    from quantify_scheduler import Schedule

    s = Schedule("s")
    body(vc, s, 2, vc.choice("hi", [12, 40]))
    n = round(max([t + p["duration"] for t, p in pulses(s)] + [0]) * 1e9) + 50
    before, rest, free = signal(s, n), others(s), alone(s)
    o = vc.run(vc.fn(T[0]), s, None)
    vc.prove("total", o.ok, repr(o.exc))
    r = o.value
    after = signal(r, n)
    for pc in before:
        vc.prove("every output stays", pc in after or not np.any(before[pc]), pc)
        if pc in after:
            d = np.abs(before[pc] - after[pc])
            vc.prove("same sum at every instant", d.max() < 1e-9, (pc, int(d.argmax()), before[pc][d.argmax()], after[pc][d.argmax()]))
    vc.prove("no new outputs", set(after) <= set(before))
    vc.prove("acquisitions and everything else stay", others(r) == rest, (rest, others(r)))
    x = next(clashes(r), None)
    vc.prove("no overlap left", x is None, x)
    vc.prove("pulses that overlap nothing stay", free <= described(r), sorted(free - described(r))[:2])


def described(s):
    return {(round(t * 1e9), repr(p)) for t, p in pulses(s)}


def alone(s):
    ps = [(round(t * 1e9), round((t + p["duration"]) * 1e9), p) for t, p in pulses(s)]
    return {(a, repr(p)) for i, (a, b, p) in enumerate(ps) if not any(
        i != j and (p["port"], p["clock"]) == (q["port"], q["clock"]) and a < d and c < b for j, (c, d, q) in enumerate(ps))}


def value(vc, infos, x):
    """sum at the sample x (ns) of (start in ns, pulse_info)"""
    s = 0
    for t, p in infos:
        f = p["wf_func"].rsplit(".", 1)[1]
        n = p["duration"] * NS
        if f == "square":
            v = p["amp"]
        elif f == "ramp":
            v = p["amp"] * (x - t) / n + p.get("offset", 0)
        else:  # one value per nanosecond
            v = p["samples"].f(x - t) if hasattr(p["samples"], "f") else p["samples"][x - t]
        s = s + vc.ite(vc.And(x >= t, x < t + n), v, 0)
    return s


A3 = ["bounded: {}; any times, durations and amplitudes", "floating point is treated as exact real arithmetic (bounded symbolic mode)"]


def three(a):
    return [A3[0].format(a), A3[1]]


@unit("C08.two", "C08", modes=("bounded",), targets=T, bounded={"len": 3, "max_paths": 3000}, budget=150,
      assumptions=three("two pulses, square or ramp, on one port-clock"))
def two(vc):
    """sum at every sample, for all times, durations and amplitudes of two pulses"""
    few(vc, 2, ["square", "ramp"])


@unit("C08.three", "C08", modes=("bounded",), targets=T, bounded={"len": 3, "max_paths": 3000}, budget=150,
      assumptions=three("three square pulses on one port-clock, added in the order of their starts"))
def three_(vc):
    """sum at every sample, for all times, durations and amplitudes of three square pulses"""
    few(vc, 3, ["square"])


def few(vc, n, kinds):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import pulse_library as pl

    s = Schedule("s")
    orig = []
    for k in range(n):
        t, d, a = vc.int("at", 0), vc.int("d", 1), vc.real("amp", -1, 1)
        if n == 3 and orig:
            vc.assume(t >= orig[-1][0])
        if vc.choice("pulse", kinds) == "ramp":
            op = pl.RampPulse(amp=a, duration=ns(vc, d), port="p", clock="c")
        else:
            op = pl.SquarePulse(amp=a, duration=ns(vc, d), port="p", clock="c")
        s.operations[f"{k}"] = op
        s.schedulables[f"{k}"] = {"abs_time": ns(vc, t), "operation_id": f"{k}"}
        orig.append((t, op.data["pulse_info"][0]))
    x = vc.int("sample", 0)
    want = value(vc, orig, x)
    o = vc.run(vc.fn(T[0]), s, None)
    vc.prove("total", o.ok, repr(o.exc))
    new = []
    for sb in o.value.schedulables.values():
        for p in o.value.operations[sb["operation_id"]].data["pulse_info"]:
            new.append(((sb["abs_time"] + p["t0"]) * NS, p))
    vc.prove("same sum at every instant", vc.eq(value(vc, new, x), want))
    on = 0
    for t, p in new:
        on = on + vc.ite(vc.And(x >= t, x < t + p["duration"] * NS), 1, 0)
        vc.prove("same output", p["port"] == "p" and p["clock"] == "c")
    vc.prove("no overlap left", on <= 1)


@unit("C08.intervals", "C08", modes=("prove",), targets=[f"{P}:_construct_pulses_by_interval"],
      assumptions=["the events are sorted by time, every pulse has one start and, later in the list, one end"])
def intervals(vc):
    """for any number of pulses: every instant lies in at most one interval, which names exactly the pulses playing then"""
    from types import SimpleNamespace

    from engine import sym as S
    from engine.rt import Ghost, LoopSpec

    p = S.cur()
    z3 = S.z3
    tf, ef = z3.Function("T", z3.IntSort(), z3.RealSort()), z3.Function("E", z3.IntSort(), z3.BoolSort())
    n = vc.int("events", 2)
    s, e = vc.int("start of K", 0), vc.int("end of K", 0)
    x = vc.real("instant")
    p.assume(S.and_(s < e, e < n))
    K = "K"

    def T(i):
        return S.wrap(tf(S.term(i)))

    def sorted_at(i):
        for j in (s, e):
            p.assume(S.implies(i <= j, T(i) <= T(j)))
            p.assume(S.implies(j <= i, T(j) <= T(i)))

    p.assume(T(s) <= T(e))

    class Keys(Ghost):
        def __init__(self, has, card):
            self.has, self.card = has, card

        def append(self, key):
            self.has, self.card = (True if key is K else self.has), self.card + 1

        add = append

        def remove(self, key):
            vc.prove("only pulses that are playing end", True if key is not K else self.has)
            if key is K:
                self.has = False
            self.card = self.card - 1
            p.assume(self.card >= S.ite(self.has, 1, 0))  # (what ends has started)

        discard = remove

        def copy(self):
            return Keys(self.has, self.card)

        def __bool__(self):
            return bool(self.card > 0)

        def __vc_len__(self):
            return self.card

    class Found(Ghost):
        """of the intervals found so far: how many contain the instant, does that one name K"""

        def __init__(self, count, named):
            self.count, self.named = count, named

        def append(self, iv):
            on = S.and_(iv.start_time <= x, x < iv.end_time)
            self.count = self.count + S.ite(on, 1, 0)
            self.named = S.or_(self.named, S.and_(on, iv.pulse_keys.has))

    def make(i, name):
        if bool(i == s):
            key, end = K, False
        elif bool(i == e):
            key, end = K, True
        else:
            key, end = "other", S.wrap(ef(S.term(i)))
        sorted_at(i)
        p.assume(S.implies(i > 0, T(i - 1) <= T(i)))
        p.assume(S.implies(i == 0, S.not_(end)))
        return SimpleNamespace(time=T(i), is_end=end, pulse_key=key, schedulable_key=key)

    def inv(st, k):
        a, f, last = st.active_pulses, st.pulses_by_interval, st.last_time
        if type(k) is int and k == 0 and not isinstance(f, Ghost):
            return [("starts empty", not a and not f and last is None)]
        ka = a if isinstance(a, Keys) else Keys(K in a, len(a))
        done = last is None
        t = None if done else last
        out = [("first event", (k == 0) if done else (k > 0)),
               ("K is active between its start and its end", vc.eq(ka.has, S.and_(s < k, k <= e))),
               ("number of active pulses", S.and_(ka.card >= S.ite(ka.has, 1, 0)))]
        if not done:
            out.append(("time of the last event", t == T(k - 1)))
            fc = f if isinstance(f, Found) else Found(len(f), False)
            out += [("at most one interval contains an instant", S.and_(fc.count >= 0, fc.count <= 1)),
                    ("none beyond the last event", S.implies(x >= t, fc.count == 0)),
                    ("names K exactly while it plays", vc.eq(fc.named, S.and_(x < t, T(s) <= x, x < T(e)))),
                    ("named within an interval", S.implies(fc.named, fc.count == 1))]
        else:
            fc = f if isinstance(f, Found) else Found(len(f), False)
            out += [("nothing found yet", S.and_(fc.count == 0, S.not_(fc.named)))]
        return out

    def havoc(st):
        has, card = p.fresh("bool", "has"), p.fresh("int", "card")
        d = {"active_pulses": Keys(has, card), "pulses_by_interval": Found(p.fresh("int", "count"), p.fresh("bool", "named"))}
        d["last_time"] = None if p.fork(p.fresh("bool", "first").t) else p.fresh("real", "last_time")
        return d

    base = inv

    def inv2(st, k):
        if not (isinstance(k, int) and k == 0):
            sorted_at(k - 1)
        return base(st, k)

    seq = vc.seq("sorted_pulses", make, lo=2, spec=LoopSpec(inv2, havoc=havoc, label="events"))
    p.assume(seq.n == n)
    o = vc.run(vc.fn(f"{P}:_construct_pulses_by_interval"), seq)
    vc.prove("total", o.ok, repr(o.exc))
    f = o.value
    vc.prove("at most one interval contains an instant", S.and_(f.count >= 0, f.count <= 1))
    vc.prove("it names a pulse exactly while that plays", vc.eq(f.named, S.and_(T(s) <= x, x < T(e))))
    vc.prove("there is one while a pulse plays", S.implies(S.and_(T(s) <= x, x < T(e)), f.count == 1))


@unit("C08.output", "C08", modes=("fuzz",), fuzz=1000, shards=4, budget=110, targets=T,
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "bounded: random schedules"])
def output(vc):
    """compiled programs put out the sum of the pulses, in loops and nested schedules too"""
    from vlib.qprop import Case

    c = Case(vc, amp=0.3, overlap=True, min_slot=12, grid=4, max_slots=3, kinds=("pulse", "pulse", "phase", "nested"), big=False,
             long_ok=False, shuffle=vc.bool("shuffle"), must_compile=True)
    c.well_formed()
    c.total()
    c.output()
