"""C01: absolute timing."""
from engine.core import unit

C = "quantify_scheduler.compilation"
S = "quantify_scheduler.schedules.schedule"
PTS = ["start", "center", "end", None]
T = [f"{C}:_determine_absolute_timing", f"{C}:_get_start_time", f"{C}:_normalize_absolute_timing",
     f"{C}:_make_timing_constraints_explicit", f"{S}:ScheduleBase.get_schedule_duration", f"{S}:Schedule.add"]
HASH = "hash() of symbolic operation content identifies the term (C14 decides hashing itself)"


def mx(vc, a, b):
    return vc.ite(a > b, a, b)


def config(strategy):
    """the part of a compilation config that carries the scheduling strategy"""
    from types import SimpleNamespace

    from quantify_scheduler.enums import SchedulingStrategy

    return SimpleNamespace(device_compilation_config=SimpleNamespace(scheduling_strategy=SchedulingStrategy(strategy)))


def offset(pt, d, default):
    pt = pt or default
    return {"start": 0, "center": d / 2, "end": d}[pt]


def times_hold(vc, scheds, durs, cons, strategy, tag=""):
    """cons[i]: list of (rel, ref index | None, ref_pt, ref_pt_new)"""
    n = len(scheds)
    t = [s["abs_time"] for s in scheds]
    for i in range(n):
        lbs = []
        for rel, r, rp, rn in cons[i]:
            if r is None:
                r = i - 1 if strategy == "asap" else i + 1
            if r < 0 or r >= n:
                continue
            d_ref, d_new = ("end", "start") if strategy == "asap" else ("start", "end")
            lbs.append(t[r] + offset(rp, durs[r], d_ref) + rel - offset(rn, durs[i], d_new))
        if not lbs:
            continue
        m = lbs[0]
        for x in lbs[1:]:
            m = mx(vc, m, x)
        vc.prove("constraint satisfied" + tag, vc.eq(t[i], m, abs=1e-13), detail=lambda: f"op {i}: {t[i]} != {m}")
    vc.prove("nothing before time zero" + tag, vc.And([x >= (0 if vc.symbolic else -1e-18) for x in t]))
    vc.prove("something at time zero" + tag, vc.Or([x == 0 for x in t]))


def duration_holds(vc, sched, scheds, durs, reps, tag=""):
    end = scheds[0]["abs_time"] + durs[0]
    for s, d in zip(scheds, durs):
        end = mx(vc, end, s["abs_time"] + d)
    vc.prove("duration is the latest end" + tag, vc.eq(sched.duration, reps * end, abs=1e-13),
             detail=lambda: f"{sched.duration} != {reps} * {end}")


@unit("C01.pair", "C01", targets=T, assumptions=[HASH], fuzz=200)
def pair(vc):
    """two operations, every combination of reference points, both strategies; repeated determination is idempotent"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import IdlePulse
    det = vc.fn(f"{C}:_determine_absolute_timing")
    s = Schedule("s")
    strategy = vc.choice("strategy", ["asap", "alap"])
    d = [vc.real("d0", 0, 1), vc.real("d1", 0, 1)]
    rp, rn = vc.choice("rp", PTS), vc.choice("rn", PTS)
    rel = vc.real("rel", -1, 1)
    explicit = vc.bool("explicit")
    first, ref = (0, 1) if strategy == "asap" else (1, 0)
    kw = dict(rel_time=rel, ref_pt=rp, ref_pt_new=rn)
    ops = [vc.call(IdlePulse, x) for x in d]
    scheds = [None, None]
    if strategy == "asap":
        scheds[0] = vc.call(s.add, ops[0], label="a")
        scheds[1] = vc.call(s.add, ops[1], label="b", **kw, **({"ref_op": "a"} if explicit else {}))
        cons = [[], [(rel, 0, rp, rn)]]
    else:
        scheds[0] = vc.call(s.add, ops[0], label="a", **kw, **({"ref_op": "b"} if explicit else {}))
        scheds[1] = vc.call(s.add, ops[1], label="b")
        cons = [[(rel, 1, rp, rn)], []]
    vc.call(det, s, "physical", config(strategy))
    times_hold(vc, scheds, d, cons, strategy)
    duration_holds(vc, s, scheds, d, 1)
    before = [x["abs_time"] for x in scheds]
    vc.call(det, s, "physical", config(strategy))
    vc.prove("idempotent", vc.And([vc.eq(x["abs_time"], y) for x, y in zip(scheds, before)]))


@unit("C01.start-time-step", "C01", targets=[f"{C}:_get_start_time"], fuzz=200)
def step(vc):
    """one constraint, arbitrary already timed reference"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.schedules.schedule import TimingConstraint
    from quantify_scheduler.operations.pulse_library import IdlePulse
    f = vc.fn(f"{C}:_get_start_time")
    s = Schedule("s")
    d0, d1, t0, rel = vc.real("d0", 0, 1), vc.real("d1", 0, 1), vc.real("t0", -1, 1), vc.real("rel", -1, 1)
    a = vc.call(s.add, vc.call(IdlePulse, d0), label="a")
    a["abs_time"] = t0
    rp, rn = vc.choice("rp", PTS), vc.choice("rn", PTS)
    tc = TimingConstraint(ref_schedulable="a", ref_pt=rp, ref_pt_new=rn, rel_time=rel)
    r = vc.call(f, s, tc, vc.call(IdlePulse, d1), "physical")
    vc.prove("start time", vc.eq(r, t0 + offset(rp, d0, "end") + rel - offset(rn, d1, "start"), abs=1e-13))


@unit("C01.loop-duration", "C01", targets=["quantify_scheduler.operations.control_flow_library:LoopOperation.duration",
                                           f"{C}:_determine_absolute_timing"], assumptions=[HASH], fuzz=200)
def loops(vc):
    """a loop lasts repetitions x body, a conditional lasts its body, a nested schedule lasts its content; the same
    body may be used several times"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.pulse_library import IdlePulse
    det = vc.fn(f"{C}:_determine_absolute_timing")
    d = [vc.real("d0", 0, 1), vc.real("d1", 0, 1)]
    rel = vc.real("rel", -1, 1)
    n = vc.int("reps", 1, 10**6)
    m = vc.int("reps2", 1, 1000)
    body = Schedule("body")
    x = vc.call(body.add, vc.call(IdlePulse, d[0]))
    y = vc.call(body.add, vc.call(IdlePulse, d[1]), rel_time=rel)
    kind = vc.choice("kind", ["loop", "cond", "nested", "two-loops"])
    s = Schedule("s")
    wrap = {"loop": lambda: LoopOperation(body, n), "cond": lambda: ConditionalOperation(body, "q0"),
            "nested": lambda: body, "two-loops": lambda: LoopOperation(body, n)}[kind]
    fac = {"loop": n, "cond": 1, "nested": 1, "two-loops": n}[kind]
    a = vc.call(s.add, vc.call(wrap))
    b = vc.call(s.add, vc.call(IdlePulse, 1e-6))
    if kind == "two-loops":
        c = vc.call(s.add, vc.call(LoopOperation, body, m))
    vc.call(det, s)
    times_hold(vc, [x, y], d, [[], [(rel, 0, None, None)]], "asap", " (body)")
    duration_holds(vc, body, [x, y], d, 1, " (body)")
    tot = mx(vc, x["abs_time"] + d[0], y["abs_time"] + d[1])
    vc.prove("successor starts after the whole body", vc.eq(b["abs_time"], fac * tot, rel=1e-9, abs=1e-13))
    if kind == "two-loops":
        us = vc.lit(1e-6) if vc.symbolic else 1e-6
        vc.prove("second loop starts at its place", vc.eq(c["abs_time"], fac * tot + us, abs=1e-13))
        vc.prove("total", vc.eq(s.duration, fac * tot + us + m * tot, abs=1e-13))


def build(vc, n, depth, strategy, multi):
    """random schedule + what its content should last; returns (schedule, duration, check callback)"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.pulse_library import SquarePulse
    s = Schedule("s", repetitions=1)
    step = 9 if vc.symbolic else vc.choice(f"names{depth}", [1, 3, 7, 9])  # names in any alphabetical order
    label = [f"l{(step * i) % 10}" for i in range(n)]
    durs, cons, subs, rows = [], [], [], []
    scheds = []
    for i in range(n):
        kind = vc.choice(f"kind{depth}.{i}", ["op", "nested", "loop", "cond"]) if depth else "op"
        body = None
        if kind == "op":
            d = vc.real(f"d{depth}.{i}", 0, 1) if vc.symbolic else vc.int(f"d{depth}.{i}", 0, 2000) * 1e-9
            op = vc.call(SquarePulse, amp=0.5, duration=d, port=f"p{i}", clock="cl0.baseband")
            durs.append(d)
        else:
            body = build(vc, vc.length(f"n{depth}.{i}", 1, 3 if not vc.symbolic else 2), depth - 1, strategy, multi)
            reps = 1
            if kind == "loop":
                reps = vc.int(f"reps{depth}.{i}", 1, 4)
                op = vc.call(LoopOperation, body=body["s"], repetitions=reps)
            elif kind == "cond":
                op = vc.call(ConditionalOperation, body=body["s"], qubit_name="q0")
            else:
                op = body["s"]
            durs.append(None)
            body["reps"] = reps
        subs.append(body)
        cs = []
        for j in range(vc.length(f"nc{depth}.{i}", 1, 2 if vc.symbolic else 4) if multi else 1):
            lo, hi = (0, i - 1) if strategy == "asap" else (i + 1, n - 1)
            r = None
            if lo <= hi and vc.bool(f"ex{depth}.{i}.{j}"):
                r = vc.length(f"ref{depth}.{i}.{j}", lo, hi)
            rp, rn = vc.choice(f"rp{depth}.{i}.{j}", PTS), vc.choice(f"rn{depth}.{i}.{j}", PTS)
            rel = vc.real(f"rel{depth}.{i}.{j}", -1, 1) if vc.symbolic else \
                vc.int(f"rel{depth}.{i}.{j}", -3000, 3000) * 1e-9
            kw = dict(rel_time=rel, ref_pt=rp, ref_pt_new=rn)
            if j == 0:
                sc = vc.call(s.add, op, label=label[i], ref_op=None if r is None else label[r], **kw)
            else:
                vc.call(sc.add_timing_constraint, ref_schedulable=None if r is None else label[r], **kw)
            cs.append((rel, r, rp, rn))
        scheds.append(sc)
        cons.append(cs)
    return {"s": s, "scheds": scheds, "durs": durs, "cons": cons, "subs": subs}


def check(vc, b, strategy):
    durs = []
    for i, d in enumerate(b["durs"]):
        if d is None:
            d = b["subs"][i]["reps"] * check(vc, b["subs"][i], strategy)
        durs.append(d)
    times_hold(vc, b["scheds"], durs, b["cons"], strategy)
    duration_holds(vc, b["s"], b["scheds"], durs, 1)
    b["ends"] = durs
    tot = b["scheds"][0]["abs_time"] + durs[0]
    for s, d in zip(b["scheds"], durs):
        tot = mx(vc, tot, s["abs_time"] + d)
    b["tot"] = tot
    return tot


def rows(b, t0=0.0):
    out = []
    for i, sc in enumerate(b["scheds"]):
        t = t0 + sc["abs_time"]
        sub = b["subs"][i]
        if sub is None:
            out.append((t, f"p{i}"))
        else:
            for k in range(sub["reps"]):
                out += rows(sub, t + k * sub["tot"])
    return out


@unit("C01.schedules", "C01", modes=("bounded", "fuzz"), targets=T, fuzz=250, budget=70,
      bounded={"len": 3, "max_paths": 250}, assumptions=[HASH])
def schedules(vc):
    """random nested schedules against the constraint equations (bounded)"""
    det = vc.fn(f"{C}:_determine_absolute_timing")
    strategy = vc.choice("strategy", ["asap", "alap"])
    n = vc.length("n", 1, 6 if not vc.symbolic else 3)
    b = build(vc, n, 2 if not vc.symbolic else 0, strategy, strategy == "asap")
    vc.call(det, b["s"], "physical", config(strategy))
    check(vc, b, strategy)
    if not vc.symbolic:
        import numpy as np
        tt = b["s"].timing_table.data
        got = sorted(zip(tt["abs_time"], tt["port"]))
        want = sorted(rows(b))
        vc.prove("timing table lists every pulse at its time", len(got) == len(want) and all(
            abs(x[0] - y[0]) < 1e-12 for x, y in zip(got, want)), detail=lambda: f"{got} != {want}")
        before = [(k, s["abs_time"]) for k, s in b["s"].schedulables.items()]
        if vc.bool("via-json"):
            from quantify_scheduler import Schedule
            s2 = Schedule.from_json(b["s"].to_json())
            vc.call(det, s2, "physical", config(strategy))
        else:
            s2 = vc.call(det, b["s"], "physical", config(strategy))
        after = [(k, s["abs_time"]) for k, s in s2.schedulables.items()]
        vc.prove("determining the timing again changes nothing", len(before) == len(after) and all(
            p[0] == q[0] and np.isclose(p[1], q[1], atol=1e-13, rtol=0) for p, q in zip(before, after)),
            detail=lambda: f"{before} -> {after}")


@unit("C01.rejects", "C01", modes=("fuzz",), targets=T, fuzz=60)
def rejects(vc):
    """references to unknown operations, circular references and empty schedules are rejected"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import IdlePulse
    det = vc.fn(f"{C}:_determine_absolute_timing")
    s = Schedule("s")
    n = vc.length("n", 1, 5)
    scs = [s.add(IdlePulse(1e-6 * (i + 1)), label=f"l{i}") for i in range(n)]
    i = vc.length("i", 0, n - 1)
    kind = vc.choice("kind", ["unknown", "self", "cycle"])
    if kind == "unknown":
        scs[i].add_timing_constraint(ref_schedulable="nobody")
    elif kind == "self":
        scs[i].add_timing_constraint(ref_schedulable=f"l{i}")
    else:
        vc.assume(i < n - 1)
        scs[i].add_timing_constraint(ref_schedulable=f"l{n - 1}")
    o = vc.run(det, s)
    vc.prove("rejected", not o.ok and isinstance(o.exc, (ValueError, TypeError)), detail=lambda: repr(o.exc))


@unit("C01.operation-delay", "C01", modes=("prove", "fuzz"), targets=[f"{C}:_apply_operation_delays"],
      assumptions=[HASH], fuzz=100)
def op_delay(vc):
    """an operation that asks to delay its successors shifts each of them exactly once, however often timing is
    determined"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import IdlePulse
    det = vc.fn(f"{C}:_determine_absolute_timing")
    s = Schedule("s")
    inner = Schedule("inner")
    d0, delay, rel = vc.real("d0", 0, 1), vc.real("delay", -1, 1), vc.real("rel", -1, 1)
    vc.assume(rel + delay + d0 >= 0)
    vc.call(inner.add, vc.call(IdlePulse, d0))
    inner.data["next_operation_delay"] = delay
    a = vc.call(s.add, inner)
    b = vc.call(s.add, vc.call(IdlePulse, 1e-6), rel_time=rel)
    for _ in range(vc.length("times", 1, 3)):
        vc.call(det, s)
    vc.prove("reference", vc.eq(a["abs_time"], 0))
    vc.prove("delayed once", vc.eq(b["abs_time"], d0 + rel + delay, abs=1e-12))
