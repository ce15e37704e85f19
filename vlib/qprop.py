"""Obligations about compiled programs, for units that run the real compiler on generated schedules."""
from __future__ import annotations

import warnings

from vlib import qcheck, qgen, qhw

_CFG = {}


def config(**options):
    key = repr(sorted(options.items()))
    if key not in _CFG:
        _CFG[key] = qhw.compiler_config(qhw.config(**options))
    return _CFG[key]


class Case:
    def __init__(self, vc, hw_options=None, must_compile=True, taken=None, **gen):
        self.vc = vc
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.base, self.header = qcheck.calibrate()
            self.gen = qgen.Gen(vc, **gen)
            self.sched, self.body = self.gen.schedule()
            self.taken = vc.bool("taken") if taken is None else taken
            o = vc.run(qhw.compile_, self.sched, None, config_=config(**(hw_options or {})))
        if must_compile:
            vc.prove("a realisable schedule is accepted", o.ok, repr(o.exc)[:600])
        self.compiled = o.value if o.ok else None
        self.error = None if o.ok else o.exc
        self.reps = self.gen.reps
        if self.compiled is None:
            return
        self.progs = {}
        for pc in qhw.PORTS:
            exp = qcheck.Expect(self.body, pc, self.reps, self.header, self.taken)
            q = qcheck.seq_of(self.compiled, pc)
            if q is None:
                need = exp.segs or exp.offs.points() or exp.windows or exp.acqs
                vc.prove("every used port-clock has a program", not need, pc)
                continue
            self.progs[pc] = (exp, qcheck.Actual(q, self.base, self.taken), q)

    def mapping(self, pc):
        """the mapping for retrieval of the sequencer of a port-clock: {channel: {acquisition index: bin} or index}"""
        mod, ch, _kind = qhw.PORTS[pc]
        module = self.compiled.compiled_instructions["cluster0"][f"cluster0_module{mod}"]
        for s, q in module["sequencers"].items():
            if q.channel_name == ch:
                return module.get("acq_hardware_mapping", {}).get(s, {})
        return {}

    # -- obligations
    def well_formed(self):
        for pc, (_e, a, q) in self.progs.items():
            self.vc.prove("every instruction is within the hardware's ranges", not a.problems, (pc, a.problems[:3]))

    def total(self, name="every repetition lasts as long as the schedule"):
        t = self.base - self.header + self.reps * (self.body.dur + self.header)
        for pc, (_e, a, q) in self.progs.items():
            self.vc.prove(name, a.tr.total == t, (pc, "program", a.tr.total, "schedule", t))

    def plays(self):
        """start and length of every played waveform (for pulses that are played as a single waveform)"""
        for pc, (e, a, q) in self.progs.items():
            want = sorted((t, len(w)) for t, w in e.segs)
            got = sorted((t, max(len(x), len(y))) for t, x, y in a.segs)
            self.vc.prove("every pulse is played at its time", want == got, first_diff(pc, want, got))

    def offsets(self):
        for pc, (e, a, q) in self.progs.items():
            want, got = changes(e.offs), changes(a.offs)
            self.vc.prove("every offset is set at its time", want == got, first_diff(pc, want, got))

    def output(self, name="output equals the requested signal", tol=None):
        for pc, (e, a, q) in self.progs.items():
            d = qcheck.compare_output(e, a, qgen.is_real(pc), tol or 3 * qcheck.LSB)
            self.vc.prove(name, d is None, (pc, d))

    def nco(self):
        for pc, (e, a, q) in self.progs.items():
            if "digital" in pc[0] or pc[1] == "digital" or qgen.is_real(pc) or not hasattr(q, "modulation_freq"):
                continue
            d = qcheck.compare_nco(e, a, q.modulation_freq, self.reps * (self.body.dur + self.header))
            self.vc.prove("clock phase and frequency change at their times", d is None, (pc, d))

    def acquisitions(self):
        for pc, (e, a, q) in self.progs.items():
            d = qcheck.check_acqs(e, a)
            self.vc.prove("every acquisition starts at its time", d is None, (pc, d))

    def windows(self):
        for pc, (e, a, q) in self.progs.items():
            d = qcheck.check_windows(e, a)
            self.vc.prove("digital windows open and close at their times", d is None, (pc, d))


def changes(step, tol=4 / 32768):
    """times at which the value changes noticeably"""
    out, last = [], step.v[0]
    for t, v in zip(step.t[1:], step.v[1:]):
        if abs(v - last) > tol:
            out.append(t)
            last = v
    return out


def first_diff(pc, want, got):
    for i, (x, y) in enumerate(zip(want, got)):
        if x != y:
            return f"{pc}: entry {i}: expected {x}, program {y} (of {len(want)}/{len(got)})"
    if len(want) != len(got):
        n = min(len(want), len(got))
        return f"{pc}: expected {len(want)} entries, program has {len(got)}; first extra {(want + got)[n:n + 1] if len(want) > n else got[n]}"
    return pc
