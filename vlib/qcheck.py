"""Compares what compiled sequencer programs do (vlib.q1sim) with what a generated schedule asks for (vlib.qgen)."""
from __future__ import annotations

import bisect
import math

import numpy as np

from vlib import q1sim, qhw
from vlib.qgen import Body, is_real

FULL = 32768.0
NCO_STEPS = 1e9 / 360
CLOSE = 4  # the closing instruction of an input window occupies the last 4 ns of the acquisition
LSB = 1 / 32768
_BASE = {}


def seq_of(compiled, pc):
    """the sequencer settings that serve a port-clock (by channel name of its module, and by port and clock)"""
    mod, ch, _kind = qhw.PORTS[pc]
    for (m, _s), q in qhw.sequencers(compiled).items():
        if m == f"cluster0_module{mod}" and q.channel_name == ch:
            return q
    return None


def calibrate():
    """(time of schedule time zero, extra time per repetition), measured on a trivial schedule; the same everywhere"""
    if "b" in _BASE:
        return _BASE["b"], _BASE["h"]
    from quantify_scheduler.operations import pulse_library as pl

    s = qhw.new_schedule(repetitions=2)
    ref = s.add(pl.IdlePulse(1e-6))
    for pc in qhw.PORTS:
        if qhw.PORTS[pc][2] in ("real", "complex", "rf", "complex-ro", "rf-ro"):
            s.add(pl.SquarePulse(amp=0.5, duration=20e-9, port=pc[0], clock=pc[1]), ref_op=ref, ref_pt="start",
                  rel_time=100e-9)
    s.add(pl.MarkerPulse(duration=20e-9, port="d0:out"), ref_op=ref, ref_pt="start", rel_time=100e-9)
    c = qhw.compile_(s, qhw.config())
    res = set()
    for k, q in qhw.sequencers(c).items():
        tr = q1sim.run(q.sequence["program"])
        ts = [e.t for e in tr.events if e.kind == "play" or (e.state.get("set_digital_now") or (0,))[0] == 1]
        if len(ts) != 2:
            raise AssertionError(f"calibration: {k} performs {len(ts)} events instead of 2\n{q.sequence['program']}")
        res.add((ts[0] - 100, ts[1] - ts[0] - 1000, tr.total - ts[1] - 900))
    if len(res) != 1:
        raise AssertionError(f"calibration: sequencers disagree about the start of the schedule: {res}")
    b, h, end = res.pop()
    if end != 0 or h < 0 or h > 100:
        raise AssertionError(f"calibration: repetition overhead {h}, trailing time {end}")
    _BASE.update(b=b, h=h)
    return b, h


class Step:
    """step function of time"""

    def __init__(self, v0):
        self.t, self.v = [-math.inf], [v0]

    def set(self, t, v):
        if self.t[-1] == t:
            self.v[-1] = v
        else:
            self.t.append(t)
            self.v.append(v)

    def at(self, t):
        return self.v[bisect.bisect_right(self.t, t) - 1]

    def points(self):
        return self.t[1:]


class Expect:
    """reference behaviour of one port-clock over all repetitions"""

    def __init__(self, body: Body, pc, reps, header, taken=True, freq0=None):
        self.segs = []
        self.offs = Step(0j)
        self.phase = Step(0.0)
        self.freq = Step(0.0)
        self.acqs = []
        self.windows = []
        clock = pc[1]
        for r in range(reps):
            t0 = r * (body.dur + header)
            self.phase.set(t0 - header, 0.0)
            for t, it in body.flat(t0, taken):
                if it.kind == "pulse" and it.pc == pc:
                    self.segs.append((t, it.wave))
                elif it.kind == "offset" and it.pc == pc:
                    self.offs.set(t, it.v)
                elif it.kind == "phase" and it.clock == clock:
                    self.phase.set(t, self.phase.v[-1] + it.v)
                elif it.kind == "reset" and it.clock == clock:
                    self.phase.set(t, 0.0)
                elif it.kind == "freq" and it.clock == clock:
                    self.freq.set(t, it.v - qhw.CLOCKS[clock])
                elif it.kind == "acq" and it.pc == pc:
                    self.acqs.append((t, it))
                elif it.kind in ("marker", "window") and it.pc == pc:
                    self.windows.append((t, t + it.n, it))


class Actual:
    def __init__(self, q, base, taken=True):
        # OR, AND, XOR hold when the trigger came; NOR, NAND, XNOR when it did not
        self.tr = q1sim.run(q.sequence["program"], lambda mask, op: (op % 2 == 0) == taken)
        waves = {w["index"]: np.asarray(w["data"], dtype=float) for w in q.sequence["waveforms"].values()}
        self.segs, self.acqs, self.windows = [], [], []
        self.offs, self.gain, self.phase = Step(0j), Step((0, 0)), Step(0)
        self.freq = Step(None)
        self.problems = list(self.tr.problems)
        if len(waves) != len(q.sequence["waveforms"]):
            self.problems.append("two waveforms share an index")
        opened = None
        for e in self.tr.events:
            t = e.t - base
            if e.kind in q1sim.UPDATES:
                st = e.state
                self.offs.set(t, complex(st["offs"][0], st["offs"][1]) / FULL)
                self.gain.set(t, st["gain"])
                self.phase.set(t, st["phase"])
                self.freq.set(t, st["freq"])
                dg = st.get("set_digital_now")
                if dg is not None:
                    if dg[0] == 1:
                        opened = t
                    elif opened is not None:
                        self.windows.append((opened, t))
                        opened = None
            if e.kind == "play":
                i, k = e.args[0], e.args[1]
                if i not in waves or k not in waves:
                    self.problems.append(f"play of unknown waveform {e.args}")
                    continue
                if self.segs:
                    p = self.segs[-1]
                    if p[0] + max(len(p[1]), len(p[2])) > t:  # a new play replaces the running one
                        n = t - p[0]
                        self.segs[-1] = (p[0], p[1][:n], p[2][:n])
                self.segs.append((t, waves[i], waves[k]))
            elif e.kind.startswith("acquire"):
                self.acqs.append((t, e.kind, e.args))
                if e.kind in ("acquire_timetags", "acquire_ttl"):
                    if e.args[2] == 1:
                        opened = t
                    elif opened is not None:
                        self.windows.append((opened, t + CLOSE))
                        opened = None


def compare_output(exp: Expect, act: Actual, real, tol=3 * LSB):
    """None or a description of the first difference of the analog output"""
    pts = set(exp.offs.points()) | set(act.offs.points()) | set(act.gain.points())
    for t, w in exp.segs:
        pts |= {t, t + len(w)}
    for t, a, b in act.segs:
        pts |= {t, t + len(a), t + len(b)}
    pts = sorted(pts)
    es, as_ = sorted(exp.segs, key=lambda s: s[0]), act.segs
    for lo, hi in zip(pts, pts[1:] + [pts[-1] + 4 if pts else 0]):
        if hi <= lo:
            continue
        e = exp.offs.at(lo)
        a = act.offs.at(lo)
        n = hi - lo
        es = [s for s in es if s[0] + len(s[1]) > lo]
        for t, w in es:
            if t <= lo < t + len(w):
                e = e + w[lo - t:hi - t]
        g = act.gain.at(lo)
        k = 0
        while k < len(as_) and as_[k][0] <= lo:
            k += 1
        if k:
            t, wi, wq = as_[k - 1]
            if t + len(wi) > lo:
                a = a + wi[lo - t:hi - t] * g[0] / FULL
            if t + len(wq) > lo:
                a = a + 1j * wq[lo - t:hi - t] * g[1] / FULL
        d = np.atleast_1d(np.asarray(e) - np.asarray(a))
        if real:
            d = d.real
        d = np.where(np.isnan(d), 0, d)
        if np.max(np.maximum(np.abs(np.real(d)), np.abs(np.imag(d)))) > tol:
            j = int(np.argmax(np.abs(d)))
            ee, aa = np.broadcast_to(e, d.shape), np.broadcast_to(a, d.shape)
            return f"at {lo + j} ns (piece {lo}..{hi}, {n} samples): expected {ee[j]}, output {aa[j]}"
    return None


def compare_nco(exp: Expect, act: Actual, if0, upto):
    """phase and frequency as step functions on [0, upto)"""
    pts = sorted({p for s in (exp.phase, exp.freq, act.phase, act.freq) for p in s.points() if 0 <= p < upto} | {0})
    for p in pts:
        e = exp.phase.at(p) % 360
        a = (act.phase.at(p) / NCO_STEPS) % 360
        d = abs(e - a)
        n = 1 + len([x for x in exp.phase.t if x <= p])
        if min(d, 360 - d) > 1e-6 * n:
            return f"phase at {p} ns: expected {e}, program {a}"
        if exp.freq.t[1:]:
            f = act.freq.at(p)
            if len([x for x in exp.freq.t[1:] if x <= p]) and (
                    f is None or abs(f / 4 - (if0 + exp.freq.at(p))) > 0.5):
                return f"NCO frequency at {p} ns: expected {if0 + exp.freq.at(p)}, program {f}"
    return None


def check_windows(exp: Expect, act: Actual):
    e = sorted((a, b) for a, b, _ in exp.windows)
    if e != sorted(act.windows):
        return f"digital output on in {act.windows[:8]}, expected {e[:8]}"
    return None


def check_acqs(exp: Expect, act: Actual):
    e = sorted(t for t, it in exp.acqs)
    a = sorted(t for t, k, args in act.acqs if k in ("acquire", "acquire_weighed"))
    if e != a:
        return f"acquisitions start at {a[:12]}, expected {e[:12]}"
    return None
