"""C17: waveform formulas at every sample of arrays of any length."""
import math

from engine import garr as G
from engine.core import unit

W = "quantify_scheduler.waveforms"
H = "quantify_scheduler.helpers.waveforms"
FLOAT = "floating point is treated as exact real arithmetic (prove mode); exp, cos, sin are uninterpreted"


def times(vc, n=None):
    """sample times k/rate, k = 0..n-1, as used for sampling: returns (t, n, rate, generic index)"""
    import numpy as np

    n = vc.int("samples", 1, None if vc.symbolic else 300) if n is None else n
    rate = vc.real("rate", 1e6, 1e10, gen=lambda r: r.choice([1e9, 1e9, 2.4e9, 1.8e9, 1e8]))
    t = (vc.call(np.arange, n) if not vc.symbolic else G.GArr(n, lambda i: i + 0, "i")) / rate
    if vc.symbolic:
        i = vc.int("index", 0)
        vc.assume(i < n)
        G.ghost(i)
    else:
        i = vc.int("index", 0, n - 1)
    return t, n, rate, i


def sample(vc, o, n, i, want, name):
    if not o.ok:
        raise o.exc
    w = o.value
    vc.prove(name + ": one value per sample", G.length(w) == n, lambda: f"{G.length(w)} != {n}")
    got = G.at(w, i)
    want = want() if callable(want) else want
    vc.prove(name + ": formula", G.close(vc, got, want), lambda: f"sample {i}: {got} != {want}")


def amplitude(vc):
    if vc.choice("amplitude is", ["real", "complex"]) == "real":
        return vc.real("amp", -1, 1)
    a, b = vc.real("amp.re", -1, 1), vc.real("amp.im", -1, 1)
    return G.cx(a, b) if vc.symbolic else complex(a, b)


@unit("C17.square", "C17", targets=[f"{W}:square", f"{W}:square_imaginary"], fuzz=200, assumptions=[FLOAT])
def square(vc):
    t, n, rate, i = times(vc)
    a = amplitude(vc)
    sample(vc, vc.run(vc.fn(f"{W}:square"), t, a), n, i, a, "square")
    sample(vc, vc.run(vc.fn(f"{W}:square_imaginary"), t, a), n, i, 1j * a, "imaginary square")


@unit("C17.ramp", "C17", targets=[f"{W}:ramp"], fuzz=200, assumptions=[FLOAT])
def ramp(vc):
    t, n, rate, i = times(vc)
    a, off = vc.real("amp", -1, 1), vc.real("offset", -1, 1)
    d = vc.real("duration", 1e-9, 1e-3, gen=lambda r: n / rate)
    sample(vc, vc.run(vc.fn(f"{W}:ramp"), t, a, off, d), n, i, a * (i / rate) / d + off, "ramp")


@unit("C17.chirp", "C17", targets=[f"{W}:chirp"], fuzz=200, assumptions=[FLOAT])
def chirp(vc):
    t, n, rate, i = times(vc)
    a, f0, f1 = vc.real("amp", -1, 1), vc.real("f0", -1e8, 1e8), vc.real("f1", -1e8, 1e8)
    d = vc.real("duration", 1e-9, 1e-3, gen=lambda r: n / rate)
    x = i / rate
    tau = vc.lit(2 * math.pi)
    ph = tau * (f0 * x + (f1 - f0) / d * x * x / 2)
    want = G.cx(a * G.rcos(ph), a * G.rsin(ph)) if vc.symbolic else a * complex(math.cos(ph), math.sin(ph))
    sample(vc, vc.run(vc.fn(f"{W}:chirp"), t, a, f0, f1, d), n, i, want, "chirp")


@unit("C17.staircase", "C17", targets=[f"{W}:staircase"], fuzz=300, assumptions=[FLOAT])
def staircase(vc):
    t, n, rate, i = times(vc)
    up = vc.bool("up")
    a, b = vc.real("start", -1, 1), vc.real("final", -1, 1)
    steps = vc.int("steps", 2, None if vc.symbolic else 12)
    d = vc.real("duration", 1e-9, 1e-3, gen=lambda r: n / rate)
    o = vc.run(vc.fn(f"{W}:staircase"), t, a, b, steps, d)
    x = i / rate * steps / d
    k = vc.floor(x)
    k = vc.ite(k > steps - 1, steps - 1, k)
    want = a + k * (b - a) / (steps - 1)
    if not vc.symbolic and o.ok and abs(x - round(x)) < 1e-6:  # at the edge of a step, rounding decides
        got = G.at(o.value, i)
        ks = [min(max(round(x) - q, 0), steps - 1) for q in (0, 1)]
        vc.prove("staircase: step", any(abs(got - (a + k * (b - a) / (steps - 1))) < 1e-9 for k in ks), (i, got))
        return
    sample(vc, o, n, i, want, "staircase")


@unit("C17.drag", "C17", targets=[f"{W}:drag", f"{W}:rotate_wave"], fuzz=400, assumptions=[FLOAT], budget=120)
def drag(vc):
    t, n, rate, i = times(vc)
    g, da = vc.real("G", -1, 1), vc.real("D", -1, 1)
    d = vc.real("duration", 1e-9, 1e-3, gen=lambda r: n / rate)
    how = vc.choice("subtract", ["average", "first", "last", "none"])
    phase = vc.real("phase", -360, 360)
    if vc.choice("width by", ["sigma", "nr_sigma"]) == "sigma":
        sig = vc.real("sigma", 1e-10, 1e-3, gen=lambda r: d / r.uniform(2, 10))
        kw = dict(nr_sigma=None, sigma=sig)
    else:
        q = vc.real("nr", 0.1, 10)
        sig = d / (2 * q)
        kw = dict(nr_sigma=q, sigma=None)
    o = vc.run(vc.fn(f"{W}:drag"), t, g, da, d, **kw, phase=phase, subtract_offset=how)

    def parts(k):
        x = k / rate - d / 2
        e = g * G.rexp(-(x * x / (sig * sig)) / 2)
        return e, -da * x / sig * e

    e, q = parts(i)
    (e0, q0), (e1, q1) = parts(0), parts(n - 1)
    oe, oq = {"average": ((e0 + e1) / 2, (q0 + q1) / 2), "first": (e0, q0), "last": (e1, q1), "none": (0, 0)}[how]
    ang = phase * vc.lit(math.pi) / 180
    e, q = e - oe, q - oq
    c, s = G.rcos(ang), G.rsin(ang)
    want = G.cx(c * e - s * q, s * e + c * q) if vc.symbolic else complex(c * e - s * q, s * e + c * q)
    sample(vc, o, n, i, want, "drag")


@unit("C17.drag-args", "C17", targets=[f"{W}:drag"], fuzz=50)
def drag_args(vc):
    t, n, rate, i = times(vc)
    o = vc.run(vc.fn(f"{W}:drag"), t, 0.3, 0.1, 1e-7, nr_sigma=4, sigma=1e-8)
    vc.prove("both widths are rejected", not o.ok and isinstance(o.exc, ValueError))
    o = vc.run(vc.fn(f"{W}:drag"), t, 0.3, 0.1, 1e-7, nr_sigma=4, subtract_offset="middle")
    vc.prove("unknown offsets are rejected", not o.ok and isinstance(o.exc, ValueError))


@unit("C17.hermite", "C17", targets=[f"{W}:skewed_hermite"], fuzz=300, assumptions=[FLOAT], budget=120)
def hermite(vc):
    t, n, rate, i = times(vc)
    a, sk, phase = vc.real("amp", -1, 1), vc.real("skewness", -1e-8, 1e-8), vc.real("phase", -360, 360)
    d = vc.real("duration", 1e-9, 1e-3, gen=lambda r: n / rate)
    half = vc.bool("pi/2")
    half = bool(half)
    cen = vc.choice("center", ["default", "given"])
    kw = {}
    c0 = d / 2
    if cen == "given":
        c0 = vc.real("c", 0, 1e-3, gen=lambda r: d / 3)
        kw["center"] = c0
    r = vc.real("ratio", 1, 12)
    o = vc.run(vc.fn(f"{W}:skewed_hermite"), t, d, a, sk, phase, pi2_pulse=half, duration_over_char_time=r, **kw)
    h = vc.lit(0.667) if half else vc.lit(0.956)
    tc = d / r
    x = (i / rate - c0) / tc
    e = G.rexp(-x * x)
    re = a * (1 - h * x * x) * e
    slope = a * (-2 * x) * (h + 1 - h * x * x) * e / tc
    im = -(sk / (2 * vc.lit(math.pi))) * slope
    ang = phase * vc.lit(math.pi) / 180
    c, s = G.rcos(ang), G.rsin(ang)
    want = G.cx(c * re - s * im, s * re + c * im) if vc.symbolic else complex(c * re - s * im, s * re + c * im)
    sample(vc, o, n, i, want, "hermite")


@unit("C17.rotate", "C17", targets=[f"{W}:rotate_wave"], fuzz=150, assumptions=[FLOAT])
def rotate(vc):
    """multiplies every sample by the phase factor"""
    w = G.array(vc, "wave", "complex")
    i = G.index(vc, w)
    ph = vc.real("phase", -720, 720)
    o = vc.run(vc.fn(f"{W}:rotate_wave"), w, ph)
    ang = ph * vc.lit(math.pi) / 180
    x = G.at(w, i)
    c, s = G.rcos(ang), G.rsin(ang)
    re, im = c * x.real - s * x.imag, s * x.real + c * x.imag
    sample(vc, o, G.length(w), i, G.cx(re, im) if vc.symbolic else complex(re, im), "rotation")


@unit("C17.modulate", "C17", targets=[f"{H}:modulate_waveform"], fuzz=150, assumptions=[FLOAT])
def modulate(vc):
    """multiplies every sample by exp(2 pi i f (t + t0))"""
    w = G.array(vc, "envelope", "complex")
    n = G.length(w)
    t, _n, rate, i = times(vc, n)
    f, t0 = vc.real("freq", -1e9, 1e9), vc.real("t0", 0, 1e-6)
    o = vc.run(vc.fn(f"{H}:modulate_waveform"), t, w, f, t0)
    ang = vc.lit(2 * math.pi) * f * (i / rate + t0)
    x = G.at(w, i)
    c, s = G.rcos(ang), G.rsin(ang)
    re, im = c * x.real - s * x.imag, s * x.real + c * x.imag
    sample(vc, o, n, i, G.cx(re, im) if vc.symbolic else complex(re, im), "modulation")


@unit("C17.sampling", "C17", targets=["quantify_scheduler.backends.qblox.helpers:generate_waveform_data",
                                      f"{H}:get_waveform", f"{H}:exec_waveform_function"], fuzz=400,
      assumptions=[FLOAT], budget=100)
def sampling(vc):
    """duration*rate samples, sample k being the pulse at time k/rate"""
    n = vc.int("samples", 1, None if vc.symbolic else 3000)
    rate = vc.real("rate", 1e6, 1e10, gen=lambda r: r.choice([1e9, 1e9, 2.4e9, 1.8e9, 1e8]))
    if vc.symbolic:
        d = vc.real("duration", 0)
        vc.assume(d > 0)
        G.rewrite(vc, d * rate, n)
    else:
        d = vc.choice("duration as", [n / rate, n * (1 / rate), float(f"{n / rate:.12g}") if rate != 2.4e9 else n / rate])
    a, off = vc.real("amp", -1, 1), vc.real("offset", -1, 1)
    i = vc.int("index", 0, None if vc.symbolic else n - 1)
    vc.assume(i < n)
    if vc.symbolic:
        G.ghost(i)
    kind = vc.choice("kind", ["ramp", "square", "chirp"])
    info = {"ramp": dict(wf_func=f"{W}.ramp", amp=a, offset=off), "square": dict(wf_func=f"{W}.square", amp=a),
            "chirp": dict(wf_func=f"{W}.chirp", amp=a, start_freq=2e7, end_freq=5e7)}[kind]
    info.update(duration=d, port="p", clock="c", t0=0)
    x = i / rate
    ph = vc.lit(2 * math.pi) * (vc.lit(2e7) * x + vc.lit(3e7) / d * x * x / 2)
    want = {"ramp": lambda: a * x / d + off, "square": lambda: a,
            "chirp": lambda: G.cx(a * G.rcos(ph), a * G.rsin(ph)) if vc.symbolic else
            a * complex(math.cos(ph), math.sin(ph))}[kind]
    f = vc.choice("function", ["quantify_scheduler.backends.qblox.helpers:generate_waveform_data", f"{H}:get_waveform"])
    sample(vc, vc.run(vc.fn(f), info, sampling_rate=rate), n, i, want, "sampled " + kind)


def tol_eq(a, b):
    import numpy as np

    return len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9)


@unit("C17.interpolated", "C17", modes=("fuzz",), targets=[f"{W}:interpolated_complex_waveform"], fuzz=200,
      assumptions=["linear interpolation compared with numpy.interp (bounded)"])
def interpolated(vc):
    import numpy as np

    n = vc.length("points", 2, 40)
    rs = np.random.RandomState(vc.int("seed", 0, 10**6))
    v = rs.uniform(-1, 1, n) + (1j * rs.uniform(-1, 1, n) if vc.bool("complex") else 0)
    if np.iscomplexobj(v) and vc.bool("one complex sample"):
        only = vc.choice("which", [0, n - 1, vc.length("any", 0, n - 1)])
        v.imag[np.arange(n) != only] = 0
    dt = vc.choice("spacing", [1e-9, 4e-9, 2.5e-9])
    ts = np.arange(n) * dt
    t = np.arange(vc.length("samples", 1, 60)) * 1e-9 + vc.choice("shift", [0, 0.3e-9])
    o = vc.run(vc.fn(f"{W}:interpolated_complex_waveform"), t, v, ts)
    if t[-1] > ts[-1] + dt * (1 + 1e-9):
        vc.prove("times far beyond the samples are rejected", not o.ok and isinstance(o.exc, ValueError))
        return
    if abs(t[-1] - ts[-1] - dt) <= dt * 1e-6 and not o.ok:  # (just at the limit: either is fine)
        vc.prove("times far beyond the samples are rejected", isinstance(o.exc, ValueError))
        return
    if t[-1] > ts[-1]:
        t = t[t <= ts[-1]]
        if o.ok:
            o.value = o.value[:len(t)]
    if not o.ok:
        raise o.exc
    want = np.interp(t, ts, v.real) + 1j * np.interp(t, ts, v.imag if np.iscomplexobj(v) else 0 * v)
    vc.prove("interpolates linearly", tol_eq(o.value, want), lambda: f"{o.value[:5]} != {want[:5]}")


@unit("C17.net-zero", "C17", modes=("fuzz",), targets=[f"{W}:sudden_net_zero"], fuzz=300,
      assumptions=["bounded: arrays up to 250 samples"])
def net_zero(vc):
    import numpy as np

    arm, mid, cor, tail = (vc.length(x, lo, 60) for x, lo in (("arm", 1), ("mid", 0), ("correction", 1), ("tail", 0)))
    n = 2 * arm + mid + cor + tail
    t = np.arange(n) * 1e-9 if vc.bool("exact") else np.arange(n) / 1e9
    a, b, z = (vc.real(x, -1, 1) for x in ("A", "B", "scale"))
    o = vc.run(vc.fn(f"{W}:sudden_net_zero"), t, a, b, z, float(f"{2 * arm}e-9"), float(f"{mid}e-9"),
               float(f"{cor}e-9"))
    if not o.ok:
        raise o.exc
    want = np.zeros(n)
    want[:arm] = a
    want[arm - 1] = a * b
    want[arm + mid:2 * arm + mid] = -a * z
    want[arm + mid] = -a * z * b
    want[2 * arm + mid:2 * arm + mid + cor] = -sum(want) / cor
    vc.prove("sudden net zero: every sample", tol_eq(o.value, want), lambda: f"{o.value} != {want}")
    vc.prove("integrates to zero", abs(sum(o.value)) < 1e-8)
    o = vc.run(vc.fn(f"{W}:sudden_net_zero"), t[:n - tail - 1], a, b, z, float(f"{2 * arm}e-9"), float(f"{mid}e-9"),
               float(f"{cor}e-9"))
    vc.prove("parts longer than the pulse are rejected", n - tail - 1 < 2 or (not o.ok and isinstance(o.exc, ValueError)))


@unit("C17.soft-square", "C17", modes=("fuzz",), targets=[f"{W}:soft_square"], fuzz=100,
      assumptions=["bounded: arrays up to 200 samples"])
def soft_square(vc):
    """a square convolved with a Hann window of half its length"""
    import numpy as np

    n = vc.length("samples", 6, 200)
    a = vc.real("amp", -1, 1)
    o = vc.run(vc.fn(f"{W}:soft_square"), np.arange(n) * 1e-9, a)
    if not o.ok:
        raise o.exc
    m = n // 2
    win = np.array([0.5 * (1 - math.cos(2 * math.pi * k / (m - 1))) for k in range(m)])
    full = np.convolve(np.full(n, a), win) / sum(win)
    s = (len(full) - n) // 2
    vc.prove("soft square: every sample", tol_eq(o.value, full[s:s + n]), lambda: f"n={n} amp={a}")


PULSES = {
    "SquarePulse": lambda r, d: (dict(amp=r(-1, 1)), lambda k, n, p: p["amp"]),
    "RampPulse": lambda r, d: (dict(amp=r(-.5, .5), offset=r(-.5, .5)), lambda k, n, p: p["offset"] + p["amp"] * k / n),
    "DRAGPulse": lambda r, d: (dict(G_amp=r(-1, 1), D_amp=r(-1, 1), phase=r(-180, 180)), None),
    "GaussPulse": lambda r, d: (dict(G_amp=r(-1, 1), phase=r(-180, 180)), None),
    "ChirpPulse": lambda r, d: (dict(amp=r(-1, 1), start_freq=r(0, 1e8), end_freq=r(0, 1e8)),
                                lambda k, n, p: p["amp"] * complex(
                                    math.cos(2 * math.pi * (p["start_freq"] + (p["end_freq"] - p["start_freq"]) * k / n / 2) * k * 1e-9),
                                    math.sin(2 * math.pi * (p["start_freq"] + (p["end_freq"] - p["start_freq"]) * k / n / 2) * k * 1e-9))),
}


@unit("C17.library", "C17", modes=("fuzz",), targets=["quantify_scheduler.operations.pulse_library"], fuzz=400,
      assumptions=["bounded: random parameters"])
def library(vc):
    """pulses of the library sampled by both back ends' sampling functions, wherever they are in a schedule"""
    import numpy as np

    from quantify_scheduler.operations import pulse_library as pl
    name = vc.choice("pulse", list(PULSES))
    n = vc.length("samples", 4, 300)
    d = float(f"{n}e-9")
    kw, ref = PULSES[name](lambda lo, hi: vc.real("p", lo, hi), d)
    sig = None
    if name in ("DRAGPulse", "GaussPulse") and vc.bool("sigma"):
        sig = kw["sigma"] = d / vc.real("nr", 3, 12)
    op = getattr(pl, name)(**kw, duration=d, port="p", clock="c", t0=vc.choice("t0", [0, 0, 20e-9]))
    info = op["pulse_info"][0]
    f = vc.choice("function", ["quantify_scheduler.backends.qblox.helpers:generate_waveform_data", f"{H}:get_waveform"])
    o = vc.run(vc.fn(f), info, sampling_rate=1e9)
    if not o.ok:
        raise o.exc
    if ref is None:
        from vlib.qgen import wave_gauss

        nr = 4 if sig is None else d / (2 * sig)
        g, q, ph = kw["G_amp"], kw.get("D_amp", 0), kw["phase"]
        want = wave_gauss(n, g, q, ph, nr)
    else:
        want = np.array([ref(k, n, kw) for k in range(n)])
    vc.prove("one sample per nanosecond", len(o.value) == n, (len(o.value), n))
    vc.prove("library pulse: every sample", tol_eq(o.value, want), lambda: f"{o.value[:4]} != {want[:4]}")
