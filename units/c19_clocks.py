"""C19: instructions for Zurich Instruments devices are issued at the clock cycle of the scheduled time."""
from __future__ import annotations

from engine.core import Fake, unit
from vlib import seqc, zi

Z = "quantify_scheduler.backends.zhinst_backend"
G = "quantify_scheduler.backends.zhinst.seqc_il_generator"
T = "quantify_scheduler.backends.types.zhinst"
W = "quantify_scheduler.helpers.waveforms"
A = ["stand-ins for the vendor's packages, which are not installed: they are only needed to import the module",
     "the cost in clock cycles of an instruction is the one of the reference documentation"]
SHORT = "one clock cycle short: the product of duration and clock rate is truncated"
RATES = {"hdawg": 2.4e9, "uhfqa": 1.8e9}


@unit("C19.fixpoint", "C19", modes=("prove", "fuzz"), fuzz=300, targets=[f"{Z}:_determine_measurement_fixpoint_correction"],
      assumptions=A)
def fixpoint(vc):
    """the shift of a measurement brings it to sample zero of a cycle, on both devices' sample grid, and is the smallest such"""
    zi.module()
    start = vc.int("sample", -10**9, 10**9)
    t, n = vc.call(vc.fn(f"{Z}:_determine_measurement_fixpoint_correction"), start)
    vc.prove("measurement starts at sample zero", vc.eq((start + n) % 8, 0), (start, n))
    vc.prove("shift is on the common grid of the devices", vc.eq(n % 3, 0), n)
    vc.prove("never earlier, and less than a common period later", vc.And(n >= 0, n < 24), n)
    vc.prove("time of the shift", vc.And(t * 1.8e9 - n < 1e-6, n - t * 1.8e9 < 1e-6), (t, n))


@unit("C19.start", "C19", modes=("fuzz",), fuzz=3000, targets=[f"{Z}:_determine_clock_sample_start"], assumptions=A)
def start(vc):
    """a time on the sample grid is split into clock cycle and sample; other times are rejected"""
    zi.module()
    dev = vc.choice("device", list(RATES))
    rate = RATES[dev]
    k = vc.int("sample", 0, vc.choice("range", [40, 10**5, 10**9]))
    off = vc.choice("offset", [0, 0, 0, 0.01, 0.3, 0.5, 0.9, 0.02])
    t = (k + off) / rate
    r = vc.run(vc.fn(f"{Z}:_determine_clock_sample_start"), f"ic_{dev}0.awg{vc.int('awg', 0, 3)}", t, "op")
    if off:
        vc.prove("times off the sample grid are rejected", not r.ok and isinstance(r.exc, ValueError), (dev, k, off, r))
        return
    vc.prove("times on the sample grid are accepted", r.ok, (dev, k, r))
    clock, sample = r.value
    vc.prove("clock cycle", clock == k // 8, (dev, k, clock, sample))
    vc.prove("sample", abs(sample - k % 8) < 1e-3, (dev, k, clock, sample))


class Ghost(Fake):
    """the sequencer that runs the emitted instructions: its clock, and what it is asked to do when"""

    def __init__(self, vc, device):
        self.vc, self.device = vc, device
        self.clock = 0
        self.expected = None
        self.issued = 0
        self.inside = False

    def _declare(self, *a, **k):
        pass

    declare_var = declare_wave = assign_placeholder = emit_assign_wave_index = assign_var = emit_comment = _declare
    emit_blankline = _declare

    def emit_begin_repeat(self, reps=1):
        self.vc.prove("the loop runs once per repetition", str(reps) == "__repetitions__", reps)
        self.inside = True
        self.clock = 0

    def emit_end_repeat(self):
        self.inside = False

    def emit_wait(self, cycles, comment=""):
        self.vc.prove("waits are not negative", cycles >= 0)
        self.clock = self.clock + cycles + (3 if self.device == "HDAWG" else 0)

    def emit_set_trigger(self, index, comment=""):
        self.clock = self.clock + seqc.trigger_cost(index)

    def emit_wait_dig_trigger(self, index=0, comment="", device_type=None):
        self.vc.prove("the trigger starts the iteration", self.vc.eq(self.clock, 0))

    def _issue(self, index):
        e = self.expected
        self.vc.prove("issued at the scheduled clock cycle", self.vc.eq(self.clock, e.clock_cycle_start))
        self.issued = self.issued + 1
        if index is not None:
            self.vc.prove("waveform of the operation", self.vc.eq(index, e.waveform_id.index))

    def emit_execute_table_entry(self, index, comment=""):
        self._issue(index)

    def emit_play_wave(self, *names, comment=""):
        e = self.expected
        self.vc.prove("pulses are played", e.waveform_id.kind == "pulse")
        self.vc.prove("one waveform, of the operation", len(names) == 1 and e.waveform_id.asked == 1)
        self._issue(None)

    def emit_start_qa(self, comment=""):
        self.vc.prove("acquisitions are started", self.expected.waveform_id.kind == "acquisition")
        self._issue(None)
        self.clock = self.clock + 7

    def generate(self):
        return ""


class Wid(Fake):
    """waveform identifier of one instruction"""

    def __init__(self, index, kind):
        self.index, self.kind, self.asked = index, kind, 0


class Mapping(Fake):
    def __getitem__(self, wid):
        wid.asked += 1
        return wid.index

    def items(self):
        return []

    def values(self):
        return []


def instructions(vc, kinds, ghost):
    """instructions at any clock cycles, in order of time"""
    from quantify_scheduler.backends.types import zhinst

    risky = not vc.symbolic and vc.int("risky", 0, 3) == 0
    at = [vc.int("first clock", 0, 12)] if not vc.symbolic else None

    def make(i, name):
        kind = vc.choice(name + ".kind", kinds)
        if vc.symbolic:
            clock = vc.int(name + ".clock", 0)
        else:
            at[0] += vc.choice(name + ".gap", [3, 3, 4, 5, 7, 8, 15, 16, 40, 100, 1000, *([0, 1, 2, 6, -1] if risky else [])])
            clock = at[0]
        idx = vc.int(name + ".waveform", 0, 3)
        wid = Wid(idx, kind) if vc.symbolic else f"wf{idx}"
        e = (zhinst.Wave if kind == "pulse" else zhinst.Acquisition)(wid, 0.0, clock, 0.0)
        if ghost is not None:
            ghost.expected = e
        return e

    if not vc.symbolic:
        return vc.seq("instructions", make, hi=6)
    from engine.rt import LoopSpec

    def inv(st, k):
        return [("the sequencer is where the compiler thinks it is", vc.eq(ghost.clock, st.current_clock)),
                ("every instruction was issued", vc.eq(ghost.issued, k)),
                ("time does not run backwards", st.current_clock >= 0)]

    def havoc(st):
        ghost.clock = vc.int("clock of the sequencer")
        ghost.issued = vc.int("issued so far")
        return {"current_clock": vc.int("clock of the compiler")}

    return vc.seq("instructions", make, spec=LoopSpec(inv, havoc=havoc, label="instructions"))


class Wf(Fake):
    def __len__(self):
        return 16


def check_text(vc, program, device, instrs, wmap, reps, name):
    try:
        n, events, clocks, variables, header = seqc.run(program, device)
    except seqc.Rejected as e:
        vc.prove("the sequencer accepts the program", False, (e, program))
        return None
    vc.prove("repetitions", n == reps, (n, reps))
    got = [(ev, arg.split(",")[0], c) for ev, arg, c in events if ev in ("executeTableEntry", "playWave", "startQA")]
    want = [(name(e), "QA_INT_ALL" if name(e) == "startQA" else (str if device == "HDAWG" else "w{}".format)(wmap[e.waveform_id]),
             e.clock_cycle_start) for e in instrs]
    vc.prove("every instruction at its clock cycle", got == want, (got, want, program))
    for w, i in wmap.items():
        vc.prove("waveforms are declared", f"w{i}" in variables, (w, program))
    return clocks, header, events




def gaps(vc, instrs, first, minimum):
    """instructions the device can execute one after another"""
    clock, ok = first, True
    for e in instrs:
        ok = ok and e.clock_cycle_start - clock >= minimum
        clock = e.clock_cycle_start
    return ok


@unit("C19.hdawg", "C19", modes=("prove", "fuzz"), fuzz=800, budget=200, assumptions=A,
      targets=[f"{Z}:_assemble_hdawg_sequence", f"{G}:add_wait", f"{G}:add_execute_table_entry", f"{G}:add_set_trigger",
               f"{G}:SeqcILGenerator"])
def hdawg(vc):
    """HDAWG: every pulse at its clock cycle, for any number of pulses; an iteration lasts as long as the schedule"""
    zi.module()
    ghost = Ghost(vc, "HDAWG") if vc.symbolic else None
    instrs = instructions(vc, ["pulse"], ghost)
    markers = vc.choice("markers", [None, [], ["AWG_MARKER1"], ["AWG_MARKER1", "AWG_MARKER2"]])
    trigger = vc.choice("trigger", [None, 1, 2])
    if vc.symbolic:
        n = vc.int("duration", 0)
    else:
        n = max(0, (instrs[-1].clock_cycle_start if instrs else 0) + vc.int("rest", 2, 300))
    reps = vc.int("repetitions", 1, 1000) if not vc.symbolic else 7
    head = seqc.trigger_cost("+".join(markers)) if markers else (2 if trigger is None else 0)
    if vc.symbolic:
        wmap, waves = Mapping(), {}
        vc.stub(f"{G}:SeqcILGenerator", lambda: ghost)
    else:
        wmap = {}
        for e in instrs:
            wmap.setdefault(e.waveform_id, len(wmap))
        waves = dict.fromkeys(wmap, Wf())
    duration = n / vc.lit("3e8")
    if not vc.symbolic:  # as the sum of the time and the duration of an operation
        part = vc.int("duration of the last operation", 0, n)
        duration = (n - part) / 3e8 + part / 3e8
    r = vc.run(vc.fn(f"{Z}:_assemble_hdawg_sequence"), instructions=instrs, wf_id_mapping=wmap, numerical_wf_dict=waves,
               repetitions=reps, schedule_duration=duration, markers=markers, trigger=trigger)
    if vc.symbolic:
        if r.ok:
            vc.cover("accepted")
            if trigger is None:
                vc.prove("an iteration lasts as long as the schedule", vc.eq(ghost.clock, n))
            vc.prove("all instructions were issued", vc.eq(ghost.issued, instrs.n))
            vc.prove("the loop is closed", ghost.inside is False)
        else:
            vc.prove("rejected with a reason", isinstance(r.exc, (ValueError, AssertionError)), r.exc)
        return
    last = instrs[-1].clock_cycle_start if instrs else head
    vc.assume(trigger is not None or n - last != 4)  # shorter by a cycle in some cases, see the obligation at the end
    can = gaps(vc, instrs, head, 3) and (trigger is not None or n - last - 1 >= 3)
    vc.prove("accepted exactly if the device can do it", r.ok == can, (r, instrs, n, markers, trigger))
    if not r.ok:
        vc.prove("rejected with a reason", isinstance(r.exc, (ValueError, AssertionError)), r.exc)
        return
    import json

    out = check_text(vc, r.value[0], "HDAWG", instrs, wmap, reps, lambda e: "executeTableEntry")
    if out is None:
        return
    clocks, header, events = out
    short = trigger is None and clocks == n - 1 == int(duration * (2.4e9 / 8))
    if trigger is None and not short:
        vc.prove("an iteration lasts as long as the schedule", clocks == n, (clocks, n, r.value[0]))
    vc.prove("the trigger starts the iteration", (trigger is not None and not markers) ==
             any(ev[0] == "waitDigTrigger" and ev[1] == str(trigger) for ev in events), (events, trigger))
    table = {e["index"]: e["waveform"] for e in json.loads(r.value[1])["table"]}
    vc.prove("command table", table == {i: {"index": i, "length": 16} for i in wmap.values()}, (table, wmap))
    vc.prove("waveforms are assigned", sorted(a for ev, a in header if ev == "assignWaveIndex") ==
             sorted(f"w{i}, w{i}, {i}" for i in wmap.values()), (header, wmap))
    vc.prove("an iteration lasts as long as the schedule, whole cycles", not short, SHORT)


@unit("C19.uhfqa", "C19", modes=("prove", "fuzz"), fuzz=800, budget=200, assumptions=A,
      targets=[f"{Z}:_assemble_uhfqa_sequence", f"{G}:add_wait", f"{G}:add_play_wave", f"{G}:add_start_qa",
               f"{G}:SeqcILGenerator", f"{G}:declare_csv_waveform_variables"])
def uhfqa(vc):
    """UHFQA: every pulse and every acquisition at its clock cycle after the trigger, for any number of them"""
    zi.module()
    ghost = Ghost(vc, "UHFQA") if vc.symbolic else None
    instrs = instructions(vc, ["pulse", "acquisition"], ghost)
    trigger = vc.int("trigger", 1, 4)
    reps = vc.int("repetitions", 1, 1000) if not vc.symbolic else 7
    if vc.symbolic:
        wmap = Mapping()
        vc.stub(f"{G}:SeqcILGenerator", lambda: ghost)
    else:
        wmap = {}
        for e in instrs:
            wmap.setdefault(e.waveform_id, len(wmap))
    r = vc.run(vc.fn(f"{Z}:_assemble_uhfqa_sequence"), instructions=instrs, wf_id_mapping=wmap, repetitions=reps,
               device_name="ic_uhfqa0", trigger=trigger)
    if vc.symbolic:
        if r.ok:
            vc.cover("accepted")
            vc.prove("all instructions were issued", vc.eq(ghost.issued, instrs.n))
            vc.prove("the loop is closed", ghost.inside is False)
        else:
            vc.prove("rejected with a reason", isinstance(r.exc, (ValueError, AssertionError)), r.exc)
        return
    from quantify_scheduler.backends.types import zhinst

    clock, can = 0, True
    for e in instrs:
        can = can and e.clock_cycle_start >= clock
        clock = e.clock_cycle_start + (7 if isinstance(e, zhinst.Acquisition) else 0)
    vc.prove("accepted exactly if the device can do it", r.ok == can, (r, instrs))
    if not r.ok:
        vc.prove("rejected with a reason", isinstance(r.exc, (ValueError, AssertionError)), r.exc)
        return
    out = check_text(vc, r.value, "UHFQA", instrs, wmap, reps,
                     lambda e: "startQA" if isinstance(e, zhinst.Acquisition) else "playWave")
    if out is None:
        return
    clocks, header, events = out
    vc.prove("the trigger starts the iteration", events[0] == ("waitDigTrigger", f"{trigger}, 1", 0), events)
    vc.prove("no cycles before the trigger", header == [], header)
