"""Random device-level schedules together with an independent description of what the hardware has to do."""
from __future__ import annotations

import math

import numpy as np

from vlib import qhw

ANALOG = [pc for pc, v in qhw.PORTS.items() if v[2] in ("real", "complex", "rf", "complex-ro", "rf-ro")]
RO = [pc for pc, v in qhw.PORTS.items() if v[2] in ("complex-ro", "rf-ro")]
ACQ_NS = 100


def is_real(pc):
    return qhw.PORTS[pc][2] == "real"


class Item:
    """something that happens at t (ns, relative to its body)"""

    def __init__(self, t, kind, **kw):
        self.t = t
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"{self.kind}@{self.t}{ {k: v for k, v in self.__dict__.items() if k not in ('t', 'kind', 'wave', 'body')} }"


class Body:
    def __init__(self):
        self.items = []
        self.dur = 0

    def flat(self, t0=0, taken=True):
        out = []
        for it in sorted(self.items, key=lambda i: i.t):
            if it.kind == "loop":
                for k in range(it.reps):
                    out += it.body.flat(t0 + it.t + k * it.body.dur, taken)
            elif it.kind == "cond":
                if taken:
                    out += it.body.flat(t0 + it.t, taken)
                out.append((t0 + it.t, it))
            else:
                out.append((t0 + it.t, it))
        return out


def wave_square(n, amp):
    return np.full(n, amp, dtype=complex)


def wave_ramp(n, amp, offset=0.0):
    return np.array([offset + amp * i / n for i in range(n)], dtype=complex)


def wave_gauss(n, g, d, ph, nr_sigma, first=None):
    t = np.arange(n, dtype=float)
    mu, sig = n / 2, n / (2 * nr_sigma)
    env = g * np.exp(-((t - mu) ** 2) / (2 * sig**2))
    der = -d * (t - mu) / sig * env
    env = env - (env[0] + env[-1]) / 2
    der = der - (der[0] + der[-1]) / 2
    return (env + 1j * der) * np.exp(1j * math.radians(ph))


def wave_staircase(n, a, b, steps):
    lo, hi = min(a, b), max(a, b)
    out = []
    for i in range(n):
        x = i * steps / n
        if abs(x - round(x)) < 1e-9 and 0 < round(x) < steps:
            out.append(math.nan)  # exactly between two steps: either (NaN: not compared)
            continue
        k = math.floor(x)
        out.append(min(max(a + k * (b - a) / (steps - 1), lo), hi))
    return np.array(out, dtype=complex)


class Gen:
    def __init__(self, vc, ports=None, grid=None, max_slots=6, depth=2, kinds=("pulse",), big=True, overlap=False,
                 pulse_kinds=("square", "ramp", "drag", "numerical"), min_slot=8, amp=1.0, long_ok=True,
                 acq_protocols=("SSBIntegrationComplex",), reps=(1, 3), spaced=False, shuffle=False,
                 loopgap=8, min_amp=0.0, palette=(), across=False, jitter=False, together=False):
        self.jitter = jitter
        self.together = together
        self.across = across
        self.min_amp = min_amp
        self.palette = list(palette)
        self.loopgap = loopgap
        self.shuffle = shuffle
        self.vc = vc
        self.ports = ports or ANALOG
        self.g = grid or vc.choice("grid", [4, 4, 1])
        self.max_slots = max_slots
        self.depth = depth
        self.kinds = list(kinds)
        self.big = big
        self.overlap = overlap
        self.pulse_kinds = list(pulse_kinds)
        self.min_slot = min_slot
        self.amp = amp
        self.long_ok = long_ok
        self.acq_protocols = list(acq_protocols)
        self.spaced = spaced
        self.channels = {}
        self.made = {}
        self.reps = vc.length("repetitions", *reps)
        self.freqs = dict(qhw.CLOCKS)

    def ns(self, name, lo, hi):
        lo, hi = math.ceil(lo / self.g), hi // self.g
        return self.vc.length(name, lo, max(lo, hi)) * self.g

    # -- pulses
    def pulse(self, pc, n):
        from quantify_scheduler.operations import pulse_library as pl

        vc = self.vc
        port, clock = pc
        real = is_real(pc)
        k = vc.choice("pk", self.pulse_kinds)
        a = round(vc.real("amp", -self.amp, self.amp), 6)
        if self.palette:
            a = vc.choice("amps", [a] + self.palette)
            if k == "numerical" and vc.bool("again"):
                w = vc.choice("made", self.made.setdefault(real, [])) if self.made.get(real) else None
                if w is not None:
                    m, d = len(w), len(w) * 1e-9
                    if m <= n:
                        w = w * vc.choice("scale", [1, 1, -1, 0.5])
                        return (pl.NumericalPulse(samples=np.append(w, 0), t_samples=np.arange(m + 1) * 1e-9, port=port,
                                                  clock=clock), np.append(w, np.zeros(n - m)))
        if abs(a) < self.min_amp:
            a = self.min_amp
        d = n * 1e-9
        if k == "square":
            z = 0 if real else round(vc.real("ampQ", -1, 1) * math.sqrt(max(0, self.amp**2 - a * a)), 6) * vc.choice("cplx", [0, 1])
            amp = complex(a, z) if z else a
            return pl.SquarePulse(amp=amp, duration=d, port=port, clock=clock), wave_square(n, amp)
        if k == "ramp":
            off = round(vc.real("off", -(self.amp - abs(a)), self.amp - abs(a)), 6)
            return pl.RampPulse(amp=a, offset=off, duration=d, port=port, clock=clock), wave_ramp(n, a, off)
        if k == "drag":
            if real:
                a2, ph = 0.0, 0.0
            else:
                a2, ph = round(vc.real("damp", -0.5, 0.5) * self.amp, 6), vc.length("ph", -180, 180)
                a = a * 0.6
            return (pl.DRAGPulse(G_amp=a, D_amp=a2, phase=ph, duration=d, port=port, clock=clock),
                    wave_gauss(n, a, a2, ph, 4))
        if k == "staircase":
            b = round(vc.real("fin", -self.amp, self.amp), 6)
            steps = vc.length("steps", 2, 5)
            return (pl.StaircasePulse(start_amp=a, final_amp=b, num_steps=steps, duration=d, port=port, clock=clock),
                    wave_staircase(n, a, b, steps))
        if k == "numerical":
            rs = np.random.RandomState(vc.length("np-seed", 0, 10**6))
            w = rs.uniform(-1, 1, n + 1) * abs(a)
            if not real and vc.bool("ncplx"):
                w = (w + 1j * rs.uniform(-1, 1, n + 1) * abs(a)) / 1.5
            self.made.setdefault(real, []).append(np.array(w[:n], dtype=complex) if not real else w[:n])
            return (pl.NumericalPulse(samples=w, t_samples=np.arange(n + 1) * 1e-9, port=port, clock=clock),
                    np.array(w[:n], dtype=complex))
        raise AssertionError(k)

    def stitched(self, pc):
        """a pulse of several parts (or one the compiler makes of several parts) and its reference waveform"""
        from quantify_scheduler.backends.qblox.operations import pulse_factories as pf
        from quantify_scheduler.backends.qblox.operations.stitched_pulse import StitchedPulseBuilder
        from quantify_scheduler.operations import pulse_library as pl

        vc = self.vc
        port, clock = pc
        on = dict(port=port, clock=clock)
        k = vc.choice("sk", ["square", "ramp", "staircase", "long square", "long ramp", "long staircase", "builder"])
        a = round(vc.real("samp", -self.amp, self.amp), 6)
        a = self.min_amp if abs(a) < self.min_amp else a
        amp = a
        if k in ("square", "long square"):
            z = 0 if is_real(pc) else round(vc.real("sampQ", -1, 1) * math.sqrt(max(0, self.amp**2 - a * a)), 6)
            amp = complex(a, z) if z and vc.bool("scplx") else a
            n = self.ns("sdur", 8 if k == "long square" else 100, vc.choice("smax", [200, 3000]))
            f = pf.long_square_pulse if k == "long square" else pl.SquarePulse
            return f(amp=amp, duration=n * 1e-9, **on), wave_square(n, amp)
        if k in ("ramp", "long ramp"):
            off = round(vc.real("soff", -(self.amp - abs(a)), self.amp - abs(a)), 6) * vc.choice("soff?", [0, 1])
            if k == "ramp":
                n = self.ns("sdur", 2000, 9000)
                return pl.RampPulse(amp=a, offset=off, duration=n * 1e-9, **on), wave_ramp(n, a, off)
            part = self.ns("part", 8, 100)
            n = self.ns("sdur", 8, 6 * part)
            r = (n - 1) % part + 1
            n += 0 if r >= 4 else 4 - r
            return (pf.long_ramp_pulse(amp=a, offset=off, duration=n * 1e-9, part_duration_ns=part, **on), wave_ramp(n, a, off))
        if k in ("staircase", "long staircase"):
            b = round(vc.real("sfin", -self.amp, self.amp), 6)
            steps = vc.length("ssteps", 2, 6)
            if k == "staircase":
                d = vc.length("sstep", math.ceil(25 / steps), 75) * 4
                return (pl.StaircasePulse(start_amp=a, final_amp=b, num_steps=steps, duration=steps * d * 1e-9, **on),
                        wave_staircase(steps * d, a, b, steps))
            d = vc.length("sstep", 2, 75) * 4
            w = np.repeat([a + j * (b - a) / (steps - 1) for j in range(steps)], d)
            return (pf.staircase_pulse(start_amp=a, final_amp=b, num_steps=steps, duration=steps * d * 1e-9,
                                       min_operation_time_ns=4, **on), np.array(w, dtype=complex))
        bl = StitchedPulseBuilder(**on)
        w, base, n = [], 0j, 0
        half = self.amp / 2
        for _ in range(vc.length("sparts", 1, 5)):
            part = vc.choice("spart", ["pulse", "pulse", "hold", "offset"])
            v = complex(round(vc.real("sv", -half, half), 6), 0 if is_real(pc) else round(vc.real("sw", -half, half), 6) / 2)
            if part == "offset":
                bl.add_voltage_offset(v.real, v.imag)
                base = v
                m = self.ns("spl", 8, 60)
                w.append(np.full(m, base))
                bl.add_pulse(pl.SquarePulse(amp=0.25 * half, duration=m * 1e-9, **on))
                w[-1] = w[-1] + 0.25 * half
            elif part == "hold":
                m = self.ns("sholdl", 8, 60)
                bl.add_voltage_offset(v.real, v.imag, duration=m * 1e-9)
                w.append(np.full(m, v))
            else:
                m = self.ns("spl", 8, 60)
                bl.add_pulse(pl.RampPulse(amp=v.real, offset=0.01, duration=m * 1e-9, **on))
                w.append(base + wave_ramp(m, v.real, 0.01))
        return bl.build(), np.concatenate(w).astype(complex)

    # -- one body
    def body(self, depth, sched, in_loop=False, in_cond=False):
        from quantify_scheduler import Schedule
        from quantify_scheduler.operations import acquisition_library as al
        from quantify_scheduler.operations import pulse_library as pl
        from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation

        vc = self.vc
        b = Body()
        t = self.ns("lead", 0, 40)
        plan = []
        same = False

        def slot(name):
            """the time until the next operation; 0: both are at the same time, in the order in which they are added"""
            nonlocal same
            same = self.together and vc.bool("together")
            return 0 if same else self.ns(name, 8, 40)

        for i in range(vc.length("slots", 1, self.max_slots)):
            kinds = self.kinds + (["loop"] if depth else [])
            if in_cond:
                kinds = [k for k in kinds if k not in ("acq", "timetag", "cond", "window")]
            kind = vc.choice("kind", kinds)
            if same and kind != "pulse":
                t, same = t + 8, False
            if kind == "loop":
                from vlib.qhw import new_schedule

                inner = Schedule("inner")
                t += self.loopgap * self.g
                reps = vc.length("loopreps", 1, 4)
                ib = self.body(depth - 1, inner, True, in_cond)
                plan.append((t, LoopOperation(body=inner, repetitions=reps)))
                b.items.append(Item(t, "loop", body=ib, reps=reps))
                t += reps * ib.dur + self.loopgap * self.g
            elif kind == "pulse":
                dur = self.ns("slot", self.min_slot, vc.choice("dmax", [24, 60, 260 if self.long_ok else 96]))
                if self.long_ok and vc.length("long", 0, 12) == 0:
                    dur = self.ns("longdur", 200, 5000)
                ends = t
                for pc in self.some_ports():
                    off = self.ns("offin", 0, dur // 2) if not same and vc.bool("shift") else 0
                    n = self.ns("pdur", 4, dur - off) if vc.bool("shorter") else dur - off
                    if n < 4:
                        continue
                    op, w = self.pulse(pc, n)
                    plan.append((t + off, op))
                    b.items.append(Item(t + off, "pulse", pc=pc, wave=w, n=n))
                    if self.overlap:
                        for _ in range(vc.length("extra", 0, 2)):
                            o2 = self.ns("ooff", 0, dur)
                            n2 = self.ns("odur", 4, dur)
                            op2, w2 = self.pulse(pc, n2)
                            plan.append((t + o2, op2))
                            b.items.append(Item(t + o2, "pulse", pc=pc, wave=w2, n=n2))
                            ends = max(ends, t + o2 + n2)
                t, same = max(t + dur, ends), False
            elif kind == "stitched":
                ends = t
                for pc in self.some_ports():
                    op, w = self.stitched(pc)
                    plan.append((t, op))
                    b.items.append(Item(t, "pulse", pc=pc, wave=w, n=len(w)))
                    ends = max(ends, t + len(w))
                t = ends + 8
            elif kind == "offset":
                pc = vc.choice("offpc", self.ports)
                lim = 1 - self.amp
                i_, q_ = round(vc.real("oI", -lim, lim), 6), 0.0 if is_real(pc) else round(vc.real("oQ", -lim, lim), 6)
                plan.append((t, pl.VoltageOffset(offset_path_I=i_, offset_path_Q=q_, port=pc[0], clock=pc[1])))
                b.items.append(Item(t, "offset", pc=pc, v=complex(i_, q_)))
                t += slot("oslot")
            elif kind == "phase":
                clock = vc.choice("phclock", [pc[1] for pc in self.ports if not is_real(pc)])
                if vc.bool("resetph"):
                    plan.append((t, pl.ResetClockPhase(clock=clock)))
                    b.items.append(Item(t, "reset", clock=clock))
                else:
                    ph = vc.real("phi", -720, 720)
                    plan.append((t, pl.ShiftClockPhase(phase_shift=ph, clock=clock)))
                    b.items.append(Item(t, "phase", clock=clock, v=ph))
                t += slot("pslot")
            elif kind == "freq":
                clock = vc.choice("fclock", [pc[1] for pc in self.ports if not is_real(pc)])
                f = qhw.CLOCKS[clock] + round(vc.real("df", -100e6, 100e6))
                plan.append((t, pl.SetClockFrequency(clock=clock, clock_freq_new=f)))
                b.items.append(Item(t, "freq", clock=clock, v=f))
                t += slot("fslot")
            elif kind == "nested":
                if not depth:
                    continue
                inner = Schedule("nested")
                ib = self.body(depth - 1, inner, in_loop, in_cond)
                plan.append((t, inner))
                b.items.append(Item(t, "loop", body=ib, reps=1, nested=True))
                t += ib.dur
            elif kind == "anyacq":
                pc = vc.choice("anyacqpc", [p for p in self.ports if p in ACQ_KINDS])
                op, it, n = self.any_acquisition(pc, t, in_loop)
                if op is not None:
                    plan.append((t, op))
                    b.items.append(it)
                    t += n + 300
            elif kind == "acq":
                pc = vc.choice("acqpc", [p for p in self.ports if p in RO])
                op, it = self.acquisition(pc, t)
                plan.append((t, op))
                b.items.append(it)
                t += ACQ_NS + 300
            elif kind == "cond":
                if in_cond or not depth:
                    continue
                pc = vc.choice("condacq", [p for p in self.ports if p in RO])
                label = "L" + pc[0]
                op = al.ThresholdedAcquisition(port=pc[0], clock=pc[1], duration=ACQ_NS * 1e-9,
                                               acq_channel=f"{pc[0]}/cond", bin_mode="append",
                                               feedback_trigger_label=label, acq_rotation=10, acq_threshold=0.1)
                plan.append((t, op))
                b.items.append(Item(t, "acq", pc=pc, ch=f"{pc[0]}/cond", bm="append", proto="ThresholdedAcquisition",
                                    label=label))
                t += ACQ_NS + 300 + self.ns("cgap", 0, 200)
                inner = Schedule("cbody")
                ib = self.body(depth - 1, inner, True, in_cond=True)
                plan.append((t, ConditionalOperation(body=inner, qubit_name=label, hardware_buffer_time=4e-9)))
                b.items.append(Item(t, "cond", body=ib, label=label))
                t += ib.dur + max(8, self.loopgap * self.g)
            elif kind == "marker":
                n = self.ns("mdur", 8, 200)
                plan.append((t, pl.MarkerPulse(duration=n * 1e-9, port="d0:out")))
                b.items.append(Item(t, "marker", pc=("d0:out", "digital"), n=n))
                t += n + self.ns("mslot", 8, 40)
            elif kind == "timetag":
                n = self.ns("tdur", 12, 400)
                ch = vc.length("tch", 0, 1)
                op = al.TriggerCount(port="d4:in", clock="digital", duration=n * 1e-9, acq_channel=f"tt{ch}",
                                     bin_mode="append")
                plan.append((t, op))
                b.items.append(Item(t, "window", pc=("d4:in", "digital"), n=n, ch=f"tt{ch}"))
                t += n + 300
            if vc.bool("gap"):
                t, same = t + 8 * same, False
                if self.big and not in_cond and vc.length("biggap", 0, 5) == 0:
                    t += self.ns("gapbig", 65528, 65540) if vc.bool("edge") else self.ns("gaphuge", 1000, 700000)
                else:
                    t += self.ns("gapsmall", 0, 60)
            if self.spaced:
                t += 8
        b.dur = t + self.ns("tail", 8, 60)
        anchor = sched.add(pl.IdlePulse(b.dur * 1e-9))
        plan.sort(key=lambda x: x[0])
        if self.shuffle:
            import random
            random.Random(vc.length("order", 0, 10**6)).shuffle(plan)
        for tt, op in plan:
            # (times computed in different ways differ in their last digits)
            eps = vc.choice("eps", [0, 1e-16, -1e-16, 2e-13, -2e-13]) if self.jitter and tt else 0
            sched.add(op, ref_op=anchor, ref_pt="start", rel_time=tt * 1e-9 + eps)
        return b

    def acquisition(self, pc, t):
        from quantify_scheduler.operations import acquisition_library as al

        vc = self.vc
        ch = vc.choice("ach", [0, 1, "x"])
        name = f"{pc[0]}/{ch}"
        proto, bm = self.channels.setdefault(
            name, (vc.choice("proto", self.acq_protocols), vc.choice("bm", ["append", "average"])))
        op = make_acq(al, proto, pc, bm, name)
        return op, Item(t, "acq", pc=pc, ch=name, bm=bm, proto=proto)

    def any_acquisition(self, pc, t, in_loop):
        """any protocol, bin mode and channel the module supports"""
        from quantify_scheduler.operations import acquisition_library as al

        vc = self.vc
        name = f"{pc[0]}/{vc.choice('ach', [0, 1, 'x'])}"
        if self.across and pc in RO and vc.bool("across"):
            name = "both/" + name[-1]
        used = [v for k, v in self.channels.items() if k.split("/")[0] in (pc[0], "both")]
        proto, bm = self.channels.get(name) or vc.choice("anyproto", ACQ_KINDS[pc])
        if bm == "trace" and name.startswith("both/"):
            return None, None, 0
        if proto == "ThresholdedTriggerCount" and (in_loop or any(p == proto for p, _ in used)):
            return None, None, 0
        if name not in self.channels:
            if ((bm == "trace" or proto == "TimetagTrace") and used) or any(b == "trace" or p == "TimetagTrace" for p, b in used):
                return None, None, 0
            if (pc == ("t0:in", "cl0.baseband") and any(b != bm for _, b in used)) or (
                    pc == ("d4:in", "digital") and any(p != proto for p, _ in used)):
                return None, None, 0
            self.channels[name] = (proto, bm)
        elif bm == "trace":
            return None, None, 0
        if bm == "trace" and in_loop:
            del self.channels[name]
            return None, None, 0
        n = ACQ_NS if pc in RO else self.ns("acqn", 12, 400)
        op = any_acq(al, proto, pc, bm, name, n)
        kind = "acq" if pc in RO else "window"
        if vc.bool("coord"):
            c = {f"set {name}": vc.length("cv", 0, 5)}
            op.data["acquisition_info"][0]["coords"] = c
        else:
            c = {}
        return op, Item(t, kind, pc=pc, ch=name, bm=bm, proto=proto, n=n, coords=c), n

    def some_ports(self):
        vc = self.vc
        ports = [p for p in self.ports if p in ANALOG]
        n = vc.length("nports", 1, min(3, len(ports)))
        out = []
        for _ in range(n):
            p = vc.choice("pc", ports)
            if p not in out:
                out.append(p)
        return out

    def schedule(self):
        s = qhw.new_schedule(repetitions=self.reps)
        b = self.body(self.depth, s)
        return s, b


_TTL = [("TriggerCount", "append"), ("TriggerCount", "distribution")]
ACQ_KINDS = {
    ("b0:res", "b0.ro"): [("SSBIntegrationComplex", "append"), ("SSBIntegrationComplex", "average"), ("Trace", "trace"),
                          ("ThresholdedAcquisition", "append"), ("ThresholdedAcquisition", "average"),
                          ("NumericalSeparatedWeightedIntegration", "append"),
                          ("NumericalSeparatedWeightedIntegration", "average")],
    ("d4:in", "digital"): [("TriggerCount", "append"), ("TriggerCount", "sum"), ("Timetag", "append"), ("Timetag", "average"),
                           ("ThresholdedTriggerCount", "append"), ("TimetagTrace", "append"), ("Trace", "trace")],
    ("t0:in", "cl0.baseband"): _TTL,
}
ACQ_KINDS[("q0:res", "q0.ro")] = ACQ_KINDS[("b0:res", "b0.ro")]


def any_acq(al, proto, pc, bm, ch, n):
    if bm == "trace":
        return al.Trace(duration=n * 1e-9, port=pc[0], clock=pc[1], acq_channel=ch,
                        bin_mode="first" if pc[1] == "digital" else "average")
    if proto in ("TriggerCount", "Timetag", "TimetagTrace"):
        return getattr(al, proto)(port=pc[0], clock=pc[1], duration=n * 1e-9, acq_channel=ch, bin_mode=bm)
    if proto == "ThresholdedTriggerCount":
        return al.ThresholdedTriggerCount(port=pc[0], clock=pc[1], duration=n * 1e-9, acq_channel=ch, bin_mode=bm, threshold=3,
                                          feedback_trigger_label="T" + pc[0])
    return make_acq(al, proto, pc, bm, ch)


def make_acq(al, proto, pc, bm, ch):
    d = ACQ_NS * 1e-9
    kw = dict(port=pc[0], clock=pc[1], acq_channel=ch, bin_mode=bm)
    if proto == "SSBIntegrationComplex":
        return al.SSBIntegrationComplex(duration=d, **kw)
    if proto == "ThresholdedAcquisition":
        return al.ThresholdedAcquisition(duration=d, acq_rotation=10, acq_threshold=0.1, **kw)
    if proto == "NumericalSeparatedWeightedIntegration":
        w = np.linspace(0, 1, ACQ_NS)
        return al.NumericalSeparatedWeightedIntegration(weights_a=list(w), weights_b=list(1 - w),
                                                        weights_sampling_rate=1e9, **kw)
    if proto == "Trace":
        return al.Trace(duration=d, **kw)
    raise AssertionError(proto)
