"""C18: stitched pulses: what the parts add up to at every sample."""
import math

import numpy as np

from engine.core import unit

F = "quantify_scheduler.backends.qblox.operations.pulse_factories"
B = "quantify_scheduler.backends.qblox.operations.stitched_pulse"
Q = "quantify_scheduler.backends.qblox_backend"
EXACT = "floating point is treated as exact real arithmetic (prove mode)"
NS = 10**9


def formula(vc, info, x):
    """value of one played waveform at the time x after its start"""
    f = info["wf_func"].rsplit(".", 1)[1]
    if f == "square":
        return info["amp"]
    if f == "ramp":
        return info["amp"] * x / info["duration"] + info.get("offset", 0)
    raise AssertionError(f)


def re(a):
    return a.real if isinstance(a, complex) or hasattr(a, "imag") else a


def im(a):
    return a.imag if isinstance(a, complex) or hasattr(a, "imag") else 0


def value(vc, infos, x, eps=0):
    """(I, Q) put out at time x by the parts of a pulse: the last offset set plus everything being played"""
    oi = oq = 0
    last = None
    pi = pq = 0
    for p in infos:
        t = p["t0"]
        if p.get("offset_path_I") is not None:
            on = x >= t - eps
            new = on if last is None else vc.And(on, t >= last)  # a later entry at the same time wins
            oi, oq = vc.ite(new, p["offset_path_I"], oi), vc.ite(new, p["offset_path_Q"], oq)
            last = vc.ite(on, t, last if last is not None else -10**9) if last is None else vc.ite(new, t, last)
        if p.get("wf_func") is not None:
            on = vc.And(x >= t - eps, x < t + p["duration"] - eps)
            v = formula(vc, p, x - t)
            pi, pq = pi + vc.ite(on, re(v), 0), pq + vc.ite(on, im(v), 0)
    return oi + pi, oq + pq


def same(vc, a, b):
    if vc.symbolic:
        return a == b
    return abs(a - b) <= 1e-9


def ns(vc, k):
    return k / NS if vc.symbolic else k * 1e-9


def place(vc, total, name="sample"):
    """a sample inside, at the end of or after the pulse (ns from its start)"""
    return vc.int(name, 0, None if vc.symbolic else 3 * total // 2 + 10, gen=lambda r: max(0, r.choice(
        [r.randint(0, total), r.randint(0, total), r.randint(0, total), total - 1, total, total - 4, total - 5, 0, total + 1])))


def close_times(vc, a, b):
    return a == b if vc.symbolic else abs(a - b) < 1e-12


def common(vc, o, t0, n, x, want):
    infos = o.value.data["pulse_info"]
    eps = 0 if vc.symbolic else 1e-12
    gi, gq = value(vc, infos, t0 + ns(vc, x), eps)
    wi, wq = want
    inside = x < n
    vc.prove("value of path I at every sample", same(vc, gi, vc.ite(inside, wi, 0)), (x, gi, wi))
    vc.prove("value of path Q at every sample", same(vc, gq, vc.ite(inside, wq, 0)), (x, gq, wq))
    vc.prove("ends when the pulse ends", close_times(vc, o.value.duration, t0 + ns(vc, n)))
    for p in infos:
        vc.prove("port and clock", p["port"] == "p" and p["clock"] == "c")
        vc.prove("nothing before the start", p["t0"] >= t0 - eps)


def amplitude(vc):
    a = vc.real("amp", -1, 1)
    if vc.choice("amplitude is", ["real", "complex"]) == "real":
        return a
    b = vc.real("amp.im", -1, 1)
    from engine import garr as G

    return G.cx(a, b) if vc.symbolic else complex(a, b)


@unit("C18.square", "C18", targets=[f"{F}:long_square_pulse", f"{B}:StitchedPulseBuilder.build"], fuzz=400,
      assumptions=[EXACT])
def square(vc):
    """the long square pulse is its amplitude for its whole duration and nothing afterwards"""
    n = vc.int("duration", 1, None if vc.symbolic else 10**5, gen=lambda r: r.choice([3, 4, 5, r.randint(4, 40), r.randint(4, 10**5)]))
    t0 = ns(vc, vc.int("t0", 0, 10**6))
    a = amplitude(vc)
    x = place(vc, n)
    o = vc.run(vc.fn(f"{F}:long_square_pulse"), amp=a, duration=ns(vc, n), port="p", clock="c", t0=t0)
    if not o.ok:
        vc.prove("rejected only below 4 ns", vc.And(n < 4, isinstance(o.exc, ValueError)))
        return
    vc.prove("accepted from 4 ns", n >= 4)
    common(vc, o, t0, n, x, (re(a), im(a)))


@unit("C18.ramp", "C18", modes=("bounded", "fuzz"), targets=[f"{F}:long_ramp_pulse", f"{B}:StitchedPulseBuilder.build"],
      fuzz=600, bounded={"len": 3, "max_paths": 600}, budget=100,
      assumptions=[EXACT, "bounded: ramps of up to 4 parts (any part duration)"])
def ramp(vc):
    """the long ramp goes straight from its offset to offset + amplitude, nothing afterwards"""
    n = vc.int("duration", 1, None if vc.symbolic else 10**4, gen=lambda r: r.choice([r.randint(1, 60), r.randint(4, 9000)]))
    part = vc.int("part", 4, None if vc.symbolic else 10**4, gen=lambda r: r.choice([n, max(4, n - 1), max(4, n // 2), max(
        4, n // 3), 2000, r.randint(4, 40), max(4, (n - 1) // 2)]))
    if vc.symbolic:
        vc.assume(n <= 4 * part)
    t0 = ns(vc, vc.int("t0", 0, 10**6))
    a, off = vc.real("amp", -1, 1), vc.real("offset", -1, 1)
    if not vc.symbolic:
        a *= vc.choice("zero amp", [1, 1, 1, 0])
        off *= vc.choice("zero offset", [1, 1, 0])
        if vc.choice("offset to zero", [0, 0, 0, 1]):
            off = -a * part / n
    x = place(vc, n)
    o = vc.run(vc.fn(f"{F}:long_ramp_pulse"), amp=a, duration=ns(vc, n), port="p", clock="c", offset=off, t0=t0,
               part_duration_ns=part)
    vc.prove("total", o.ok, repr(o.exc))
    common(vc, o, t0, n, x, (a * x / n + off, 0))


@unit("C18.ramp-unbounded", "C18", modes=("prove",), targets=[f"{F}:long_ramp_pulse"],
      assumptions=[EXACT, "builder methods replaced by their contracts (checked bounded by C18.builder)"])
def ramp_any(vc):
    """the same for any number of parts: loop contract over the builder's contracts"""
    from engine import sym as S
    from engine.rt import LoopSpec

    n = vc.int("duration", 1)
    part = vc.int("part", 4)
    a, off = vc.real("amp", -1, 1), vc.real("offset", -1, 1)
    x = vc.int("sample", 0)
    g = {"end": 0, "bg": 0, "at": 0, "play": 0}  # ns, current offset, offset in effect at x, played at x
    tx = x / NS

    def add_offset(self, path_I, path_Q, duration=None, rel_time=0.0, append=True, **kw):
        vc.prove("offsets are appended", append and duration is None)
        vc.prove("path Q stays zero", vc.eq(path_Q, 0))
        vc.prove("offset within the pulse", rel_time == 0)
        g["bg"] = path_I
        g["at"] = vc.ite(tx >= g["end"], path_I, g["at"])
        return self

    def add_pulse(self, pulse, append=True):
        vc.prove("pulses are appended", append)
        for p in pulse.data["pulse_info"]:
            t = g["end"]
            on = vc.And(tx >= t, tx < t + p["duration"])
            g["play"] = g["play"] + vc.ite(on, formula(vc, p, tx - t), 0)
            g["end"] = t + p["duration"]
        return self

    for q, h in (("add_voltage_offset", add_offset), ("add_pulse", add_pulse), ("build", lambda self: dict(g))):
        vc.stub(f"{B}:StitchedPulseBuilder.{q}", h)

    def inv(st, k):
        lin = a * x / n + off
        cur = off + (k - 1) * (part * a / n)
        return [("end", g["end"] == k * part / NS if not isinstance(k, int) else vc.eq(g["end"], k * part / NS)),
                ("voltage reached", vc.eq(st.last_sample_voltage, off + k * (part * a / n))),
                ("offset in effect", vc.ite(vc.eq(k, 0), vc.eq(g["bg"], 0), vc.eq(g["bg"], cur))),
                ("past samples", vc.implies(tx < g["end"], vc.eq(g["at"] + g["play"], lin))),
                ("future samples", vc.implies(tx >= g["end"], vc.And(vc.eq(g["play"], 0), vc.eq(g["at"], g["bg"]))))]

    def havoc(st):
        for k in g:
            g[k] = S.cur().fresh("real", "g." + k)
        return {}

    spec = LoopSpec(inv, havoc=havoc, reals=("last_sample_voltage",), label="parts")
    S.cur().range_specs = [((n - 1) // part, spec)]
    o = vc.run(vc.fn(f"{F}:long_ramp_pulse"), amp=a, duration=n / NS, port="p", clock="c", offset=off, part_duration_ns=part)
    vc.prove("total", o.ok, repr(o.exc))
    r = o.value
    vc.prove("value at every sample", vc.eq(r["at"] + r["play"], vc.ite(x < n, a * x / n + off, 0)))
    vc.prove("duration", r["end"] == n / NS)
    vc.prove("offset ends at zero", vc.eq(r["bg"], 0))


@unit("C18.staircase", "C18", modes=("bounded", "fuzz"), targets=[f"{F}:staircase_pulse", f"{B}:StitchedPulseBuilder.build"],
      fuzz=400, bounded={"len": 3, "max_paths": 600}, budget=100, assumptions=[EXACT, "bounded: up to 5 steps"])
def staircase(vc):
    """the staircase has its equally spaced levels for equal times"""
    steps = vc.length("steps", 2, 5 if vc.symbolic else 12)
    grid = vc.choice("grid", [4, 1]) if not vc.symbolic else vc.int("grid", 1, 8)
    d = vc.int("step", 2, None if vc.symbolic else 500)
    t0 = ns(vc, vc.int("t0", 0, 10**6))
    a, b = vc.real("start", -1, 1), vc.real("final", -1, 1)
    n = steps * d
    x = place(vc, n)
    o = vc.run(vc.fn(f"{F}:staircase_pulse"), start_amp=a, final_amp=b, num_steps=steps, duration=ns(vc, n), port="p",
               clock="c", t0=t0, min_operation_time_ns=grid)
    fits = vc.And(d % grid == 0, d >= 2 * grid)
    if not o.ok:
        vc.prove("rejected only if the steps do not fit the grid", vc.Or(vc.Not(fits)))
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        return
    vc.prove("steps fit the grid", d % grid == 0)
    k = x // d
    k = vc.ite(k > steps - 1, steps - 1, k)
    common(vc, o, t0, n, x, (a + k * (b - a) / (steps - 1), 0))


@unit("C18.staircase-unbounded", "C18", modes=("prove",), targets=[f"{F}:staircase_pulse"],
      assumptions=[EXACT, "builder methods replaced by their contracts (checked bounded by C18.builder)",
                   "numpy.linspace is its defining formula"])
def staircase_any(vc):
    """the same for any number of steps: loop contract over the builder's contracts"""
    from engine import sym as S
    from engine.rt import LoopSpec

    steps, d, grid = vc.int("steps", 2), vc.int("step", 1), vc.choice("grid", [4, 1])
    a, b = vc.real("start", -1, 1), vc.real("final", -1, 1)
    x = vc.int("sample", 0)
    tx = x / NS
    g = {"end": 0, "at": 0, "play": 0}

    def add_offset(self, path_I, path_Q, duration=None, rel_time=0.0, append=True, min_duration=4e-9, **kw):
        vc.prove("offsets are appended", append and rel_time == 0)
        vc.prove("path Q stays zero", vc.eq(path_Q, 0))
        t = g["end"]
        if duration is None:
            g["at"] = vc.ite(tx >= t, path_I, g["at"])
            return self
        vc.prove("shortest hold is the grid", vc.eq(min_duration, grid / NS))
        if duration < min_duration:
            raise ValueError("too short")
        g["at"] = vc.ite(vc.And(tx >= t, tx < t + duration), path_I, g["at"])
        g["end"] = t + duration
        return self

    def add_pulse(self, pulse, append=True):
        vc.prove("pulses are appended", append)
        for p in pulse.data["pulse_info"]:
            t = g["end"]
            g["play"] = g["play"] + vc.ite(vc.And(tx >= t, tx < t + p["duration"]), formula(vc, p, tx - t), 0)
            g["end"] = t + p["duration"]
        return self

    for q, h in (("add_voltage_offset", add_offset), ("add_pulse", add_pulse), ("build", lambda self: dict(g))):
        vc.stub(f"{B}:StitchedPulseBuilder.{q}", h)
    k0 = x // d
    level = a + k0 * (b - a) / (steps - 1)

    def inv(st, k):
        return [("end", vc.eq(g["end"], k * d / NS)), ("nothing played", vc.eq(g["play"], 0)),
                ("past samples", vc.implies(k0 < k, vc.eq(g["at"], level))),
                ("future samples", vc.implies(k0 >= k, vc.eq(g["at"], 0)))]

    def havoc(st):
        for k in g:
            g[k] = S.cur().fresh("real", "g." + k)
        return {}

    S.cur().range_specs = [(steps - 1, LoopSpec(inv, havoc=havoc, label="steps"))]
    o = vc.run(vc.fn(f"{F}:staircase_pulse"), start_amp=a, final_amp=b, num_steps=steps, duration=steps * d / NS, port="p",
               clock="c", min_operation_time_ns=grid)
    if not o.ok:
        vc.prove("rejected only if the steps do not fit the grid", vc.And(
            vc.Or(d % grid != 0, d < 2 * grid), isinstance(o.exc, ValueError)))
        return
    vc.prove("steps fit the grid", d % grid == 0)
    r = o.value
    vc.prove("value at every sample", vc.implies(x < steps * d, vc.eq(r["at"] + r["play"], level)))
    vc.prove("duration", vc.eq(r["end"], steps * d / NS))
    vc.prove("off at the end", vc.implies(x >= steps * d, vc.eq(r["at"] + r["play"], 0)))


@unit("C18.builder", "C18", modes=("bounded", "fuzz"), fuzz=1500, budget=100, bounded={"len": 3, "max_paths": 3000},
      targets=[f"{B}:StitchedPulseBuilder.add_pulse", f"{B}:StitchedPulseBuilder.add_voltage_offset",
               f"{B}:StitchedPulseBuilder.build", f"{B}:StitchedPulseBuilder.operation_end"],
      assumptions=[EXACT, "bounded: up to 3 parts (symbolic run), up to 7 (concrete)"])
def builder(vc):
    """offsets hold for their duration over the last lasting one, pulses are added, everything is off at the end"""
    from quantify_scheduler.operations import pulse_library as pl

    b = vc.call(vc.fn(f"{B}:StitchedPulseBuilder"), name="b", port="p", clock="c")
    hi = 10**7 if vc.symbolic else 60  # math.isclose takes times 1 ns apart for equal from 1 s on
    pulses, offs, rejected = [], [], False
    end = 0  # ns
    for k in range(vc.length("parts", 1, 3 if vc.symbolic else 7)):
        kind = vc.choice("part", ["pulse", "offset", "hold"])
        append = vc.choice("append", [True, False])
        rel = vc.int("rel", 0, hi) if kind != "pulse" or not append else 0
        at = end + rel if append else rel
        if kind == "pulse":
            d, a = vc.int("length", 1, hi), vc.real("amp", -1, 1)
            p = pl.SquarePulse(amp=a, duration=ns(vc, d), port="other", clock="other", t0=ns(vc, rel))
            o = vc.run(b.add_pulse, p, append=append)
            vc.prove("pulses are accepted", o.ok, repr(o.exc))
            vc.prove("the pulse handed over is not changed", vc.eq(p.data["pulse_info"][0]["t0"], ns(vc, rel)))
            pulses.append((at, d, a))
            end = vc.ite(at + d > end, at + d, end)
        else:
            v, w = vc.real("I", -1, 1), vc.real("Q", -1, 1)
            d = vc.int("length", 1, hi) if kind == "hold" else None
            o = vc.run(b.add_voltage_offset, v, w, duration=None if d is None else ns(vc, d), rel_time=ns(vc, rel),
                       append=append)
            new = (at, d, v, w)
            clash = vc.Or(*[overlap(vc, new, q) for q in offs], False)
            close = vc.Or(clash, *[new[0] == q[0] for q in offs])  # (two set at the same time: either)
            if not o.ok:
                short = False if d is None else d < 4
                vc.prove("rejected only if too short or overlapping", vc.Or(short, close), repr(o.exc))
                return
            vc.prove("overlapping offsets are rejected", vc.Not(clash))
            if d is not None:
                vc.prove("short offsets are rejected", d >= 4)
            offs.append(new)
            e = at + (d or 0)
            end = vc.ite(e > end, e, end)
    t0 = vc.int("t0", 0, 100)
    b = vc.call(b.set_t0, ns(vc, t0))
    o = vc.run(b.build)
    vc.prove("total", o.ok, repr(o.exc))
    x = vc.int("sample", 0, None if vc.symbolic else 200, gen=lambda r: r.choice(
        [q[0] for q in offs] + [q[0] + (q[1] or 0) for q in offs] + [end, max(0, end - 1), r.randint(0, 200)]))
    # latest offset that started; one with a duration gives way to the latest one without
    cur = base = None
    for q in offs:
        on = x >= q[0]
        cur = (on, *q) if cur is None else pick(vc, vc.And(on, vc.Or(vc.Not(cur[0]), later(vc, q, cur))), (True, *q), cur)
    wi = wq = 0
    if cur is not None:
        for q in offs:  # the latest lasting offset
            if q[1] is None:
                on = x >= q[0]
                base = (on, *q) if base is None else pick(vc, vc.And(on, vc.Or(vc.Not(base[0]), later(vc, q, base))),
                                                          (True, *q), base)
        bi = bq = 0
        if base is not None:
            bi, bq = vc.ite(base[0], base[3], 0), vc.ite(base[0], base[4], 0)
        over = False if cur[2] is None else vc.And(cur[2] >= 0, x >= cur[1] + cur[2])
        wi = vc.ite(cur[0], vc.ite(over, bi, cur[3]), 0)
        wq = vc.ite(cur[0], vc.ite(over, bq, cur[4]), 0)
    for at, d, a in pulses:
        wi = wi + vc.ite(vc.And(x >= at, x < at + d), a, 0)
    infos = o.value.data["pulse_info"]
    eps = 0 if vc.symbolic else 1e-12
    gi, gq = value(vc, infos, ns(vc, x + t0), eps)
    vc.prove("path I at every sample", same(vc, gi, vc.ite(x < end, wi, 0)), (x, gi, wi, end))
    vc.prove("path Q at every sample", same(vc, gq, vc.ite(x < end, wq, 0)), (x, gq, wq, end))
    vc.prove("duration", close_times(vc, o.value.duration, ns(vc, end + t0)))
    for p in infos:
        vc.prove("port and clock of the builder", p["port"] == "p" and p["clock"] == "c")


def later(vc, q, cur):
    return q[0] >= cur[1]


def pick(vc, c, a, b):
    def f(u, v):
        if u is None and v is None:
            return None
        return vc.ite(c, -1 if u is None else u, -1 if v is None else v)

    return tuple(f(u, v) for u, v in zip(a, b))


def overlap(vc, new, q):
    """do two offsets overlap?  (instants do not overlap what starts or ends then)"""
    a0, a1 = new[0], new[0] + (new[1] or 0)
    b0, b1 = q[0], q[0] + (q[1] or 0)
    return vc.And(a0 < b1, b0 < a1)


@unit("C18.convert", "C18", modes=("fuzz",), fuzz=600, budget=60,
      targets=[f"{B}:convert_to_numerical_pulse"], assumptions=["bounded: random pulses of up to 6 parts"])
def convert(vc):
    """the numerical pulse made of a stitched pulse has the same value at every sample and takes as long"""
    from quantify_scheduler.operations import pulse_library as pl

    op = vc.fn(f"{B}:StitchedPulse")(name="s")
    lead = vc.choice("starts", [0, 0, 1, 40])
    for k in range(vc.length("parts", 1, 6)):
        kind = vc.choice("part", ["square", "ramp", "offset"])
        t, d = (lead + vc.int("t0", 0, 60)) * 1e-9, vc.int("length", 1, 60) * 1e-9
        if k == 0:
            t = lead * 1e-9
        a = vc.real("amp", -1, 1)
        if kind == "offset":
            op.add_pulse(pl.VoltageOffset(offset_path_I=a, offset_path_Q=vc.real("Q", -1, 1), port="p", clock="c", t0=t))
        elif kind == "ramp":
            op.add_pulse(pl.RampPulse(amp=a, duration=d, port="p", clock="c", t0=t))
        else:
            op.add_pulse(pl.SquarePulse(amp=complex(a, vc.real("Q", -1, 1)), duration=d, port="p", clock="c", t0=t))
    n = round(op.duration * 1e9)
    vc.assume(n - lead >= 1)
    at = vc.choice("scheduled at", [0.0, 1e-6, 123e-9])
    o = vc.run(vc.fn(f"{B}:convert_to_numerical_pulse"), op, scheduled_at=at)
    vc.prove("total", o.ok, repr(o.exc))
    new = o.value
    (p,) = new.data["pulse_info"]
    vc.prove("takes as long", abs(new.duration - op.duration) < 1e-12, (new.duration, op.duration))
    vc.prove("port and clock", (p["port"], p["clock"]) == ("p", "c"))
    vc.prove("starts with the pulse", abs(p["t0"] - lead * 1e-9) < 1e-12)
    ts, ws = np.asarray(p["t_samples"]), np.asarray(p["samples"])
    vc.prove("one value per nanosecond", len(ws) == len(ts) == n - lead + 1, (len(ws), len(ts), n, lead))
    infos = sorted(op.data["pulse_info"], key=lambda q: q["t0"])
    for k in range(n - lead):
        x = (lead + k) * 1e-9
        gi, gq = value(vc, infos, x, 1e-12)
        vc.prove("value at every sample", abs(ws[k] - complex(gi, gq)) < 1e-9, (k, ws[k], gi, gq))
        vc.prove("time of every sample", abs(ts[k] - (x + at)) < 1e-12, (k, ts[k]))


@unit("C18.overlap", "C18", modes=("bounded", "fuzz"), fuzz=1500, budget=60, bounded={"len": 3, "max_paths": 3000},
      targets=[f"{Q}:validate_non_overlapping_stitched_pulse", f"{Q}:_raise_if_pulses_overlap_on_same_port_clock",
               f"{Q}:_get_pulse_start_ends", f"{Q}:_all_abs_times_ops_with_voltage_offsets_pulses"],
      assumptions=[EXACT, "bounded: 2 or 3 operations with up to 2 parts (symbolic run), up to 6 (concrete)"])
def overlaps(vc):
    """rejected exactly if an operation with an offset overlaps another one on the same port and clock"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.operation import Operation

    s = Schedule("s")
    hi = 10**6 if vc.symbolic else 30
    hulls = []
    n = vc.length("ops", 2, 2 if vc.symbolic else 6)
    for k in range(n):
        t = vc.int("at", 0, hi)
        op = Operation(f"op{k}")
        hull, off = {}, False
        for j in range(vc.length("parts", 1, 2 if vc.symbolic else 3)):
            port = vc.choice("port", ["p", "r"])
            t0, d = vc.int("t0", 0, hi), 0
            if vc.choice("part", ["pulse", "offset"]) == "pulse":
                d = vc.int("length", 1, hi)
                op.add_pulse(pl.SquarePulse(amp=0.1 + k + j, duration=ns(vc, d), port=port, clock="c", t0=ns(vc, t0)))
            else:
                op.add_pulse(pl.VoltageOffset(offset_path_I=0.1, offset_path_Q=0, port=port, clock="c", t0=ns(vc, t0)))
                off = True
            a, b = t + t0, t + t0 + d
            if port in hull:
                p, q = hull[port]
                a, b = vc.ite(a < p, a, p), vc.ite(b > q, b, q)
            hull[port] = (a, b)
        key = f"{k}"
        s.operations[key] = op
        s.schedulables[key] = {"abs_time": ns(vc, t), "operation_id": key}
        hulls.append((hull, off))
    bad = False
    for i in range(n):
        for j in range(i):
            (h, o1), (g, o2) = hulls[i], hulls[j]
            if o1 or o2:
                bad = vc.Or(bad, *[vc.And(h[p][0] < g[p][1], g[p][0] < h[p][1]) for p in h if p in g])
    o = vc.run(vc.fn(f"{Q}:validate_non_overlapping_stitched_pulse"), s)
    if o.ok:
        vc.prove("overlaps are rejected", vc.Not(bad))
    else:
        vc.prove("rejects with RuntimeError", isinstance(o.exc, RuntimeError), repr(o.exc))
        vc.prove("only overlaps are rejected", bad, repr(o.exc))


@unit("C18.output", "C18", modes=("fuzz",), fuzz=1500, shards=5, budget=120,
      targets=[f"{Q}:compile_long_square_pulses_to_awg_offsets", f"{F}:long_square_pulse", f"{F}:long_ramp_pulse",
               f"{F}:staircase_pulse", f"{B}:StitchedPulseBuilder.build",
               "quantify_scheduler.backends.qblox.analog:AnalogSequencerCompiler._write_repetition_loop_header"],
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "bounded: random schedules"])
def output(vc):
    """compiled programs put out the requested signal: pulses, long pulses and stitched pulses, in loops too"""
    from vlib.qprop import Case

    c = Case(vc, kinds=("stitched", "stitched", "pulse", "phase"), amp=vc.choice("full", [0.5, 0.9]), max_slots=4, min_amp=0.02,
             loopgap=8, shuffle=vc.bool("shuffle"), long_ok=False)
    c.well_formed()
    c.total()
    c.output()


def _held(vc, pulse):
    """an offset of 0.25 set at 0, a pulse of 200 ns at 100 ns on the same port and clock, in two modules"""
    from quantify_scheduler.operations import pulse_library as pl
    from vlib import q1sim, qcheck, qhw
    from vlib.qprop import config

    base, _h = qcheck.calibrate()
    s = qhw.new_schedule()
    s.add(pl.VoltageOffset(offset_path_I=0.25, offset_path_Q=0.0, port="q0:mw", clock="q0.01"))
    s.add(pl.IdlePulse(100e-9))
    s.add(pulse(port="q0:mw", clock="q0.01"))
    s.add(pl.IdlePulse(100e-9))
    c = qhw.compile_(s, None, config_=config())
    a = qcheck.Actual(qcheck.seq_of(c, ("q0:mw", "q0.01")), base)
    return [round(a.offs.at(t).real, 3) for t in (50, 150, 350)]


@unit("C18.held", "C18", modes=("fuzz",), fuzz=1, targets=[f"{Q}:compile_long_square_pulses_to_awg_offsets"],
      assumptions=["one fixed schedule (known finding)"])
def held(vc):
    """a voltage offset stays when a long square pulse plays on the same port and clock"""
    from quantify_scheduler.operations import pulse_library as pl

    got = _held(vc, lambda **k: pl.SquarePulse(amp=0.5, duration=200e-9, **k))
    vc.prove("offset 0.25 before, 0.75 during and 0.25 after a 200 ns square pulse", got == [0.25, 0.75, 0.25], got)


@unit("C18.held-short", "C18", modes=("fuzz",), fuzz=1, targets=[f"{Q}:compile_long_square_pulses_to_awg_offsets"],
      assumptions=["one fixed schedule"])
def held_short(vc):
    """a voltage offset stays when a short square pulse plays on the same port and clock"""
    from quantify_scheduler.operations import pulse_library as pl

    got = _held(vc, lambda **k: pl.SquarePulse(amp=0.5, duration=40e-9, **k))
    vc.prove("offset 0.25 before, during and after", got == [0.25, 0.25, 0.25], got)
