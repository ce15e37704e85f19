"""C23: accepted schedules give programs that the sequencers accept."""
from __future__ import annotations

from engine.core import unit

B = "quantify_scheduler.backends.qblox."
TARGETS = [f"{B}qasm_program:QASMProgram", f"{B}compiler_abc:SequencerCompiler", f"{B}operation_handling.acquisitions",
           f"{B}operation_handling.pulses", f"{B}operation_handling.virtual", f"{B}register_manager:RegisterManager"]
A = ["the assembler of qblox_instruments is that of the hardware", "bounded: random schedules"]


def programs_of(compiled):
    for name, module in compiled.compiled_instructions.get("cluster0", {}).items():
        if name.startswith("cluster0_module"):
            for seq, q in module["sequencers"].items():
                yield name, seq, q


def check(vc, c):
    from vlib import qasm, qhw

    if c.compiled is None:
        return
    for name, seq, q in programs_of(c.compiled):
        why = qasm.assemble(q.sequence["program"])
        vc.prove("the assembler accepts the program", why is None, (name, seq, why))
        mod = qhw.TYPES[int(name[len("cluster0_module"):])]
        total = 0
        for kind in ("waveforms", "weights"):
            table = q.sequence.get(kind) or {}
            idx = [w["index"] for w in table.values()]
            vc.prove("tables have distinct indices", len(set(idx)) == len(idx) and all(0 <= i < 1024 for i in idx), (name, seq, kind, idx))
            size = sum(len(w["data"]) for w in table.values())
            vc.prove("tables fit into the memory of the sequencer", size <= 16384, (name, seq, kind, size))
            vc.prove("samples are within full scale", all(-1 <= x <= 1 for w in table.values() for x in w["data"]), (name, seq, kind))
            total += size
        acqs = q.sequence.get("acquisitions") or {}
        vc.prove("acquisition memory", len({a["index"] for a in acqs.values()}) == len(acqs), (name, seq, acqs))
        vc.prove("modules without inputs acquire nothing", not acqs or "QCM" not in mod, (name, seq))


@unit("C23.waveforms", "C23", modes=("fuzz",), fuzz=1000, shards=2, budget=100, targets=TARGETS, assumptions=A)
def waveforms(vc):
    """programs with pulses, offsets, frame changes, sections and loops assemble"""
    from vlib.qprop import Case

    check(vc, Case(vc, grid=4, max_slots=6, depth=3, amp=0.5, shuffle=vc.bool("shuffle"), min_slot=4, reps=(1, 3),
                   kinds=("pulse", "pulse", "phase", "freq", "cond", "offset", "nested", "stitched")))


@unit("C23.acquisitions", "C23", modes=("fuzz",), fuzz=1000, shards=2, budget=100, targets=TARGETS, assumptions=A)
def acquisitions(vc):
    """programs with acquisitions of every protocol assemble"""
    from vlib.qgen import ACQ_KINDS
    from vlib.qprop import Case

    check(vc, Case(vc, grid=4, kinds=("anyacq", "anyacq", "pulse", "nested", "marker"), across=vc.bool("across modules"),
                   ports=[*ACQ_KINDS, ("q0:mw", "q0.01")], max_slots=5, big=False, long_ok=False, min_slot=12,
                   reps=(1, 4)))


@unit("C23.waits", "C23", modes=("prove", "fuzz"), fuzz=400, targets=[f"{B}qasm_program:QASMProgram.auto_wait"], budget=100)
def waits(vc):
    """a wait of 4 ns or more, however long, consists of waits that the sequencers can do"""
    from units.c02_building import program, size
    from vlib.symprog import Timing

    w = size(vc, "wait", 4, 10**12)
    p = program(vc, 0)
    o = vc.run(p.auto_wait, w)
    vc.prove("accepted", o.ok, repr(o.exc))
    t = Timing(vc, p.instructions)
    vc.prove("every instruction takes 4 to 65535 ns", t.in_range(4), t.durations)
    vc.prove("they add up", t.taken == w)


@unit("C23.spacing", "C23", modes=("fuzz",), fuzz=5, targets=[f"{B}qasm_program:QASMProgram.wait_till_start_operation"],
      assumptions=["the assembler of qblox_instruments is that of the hardware", "one schedule per spacing"])
def spacing(vc):
    """pulses that start at any whole number of nanoseconds after each other assemble"""
    from quantify_scheduler.operations.pulse_library import SquarePulse
    from vlib import qasm, qhw
    from vlib.qprop import config

    bad, good = [], []
    for n in [*range(4, 21), 65532 + 5, 65536]:
        s = qhw.new_schedule()
        for k in range(2):
            s.add(SquarePulse(amp=0.5 + k / 4, duration=4e-9, port="q0:mw", clock="q0.01"), rel_time=k * (n - 4) * 1e-9)
        o = vc.run(qhw.compile_, s, None, config_=config())
        if o.ok:
            fails = any(qasm.assemble(q.sequence["program"]) for _m, _s, q in programs_of(o.value))
            (bad if fails else good).append(n)
    vc.prove("spacings of 8 ns and more are accepted", set(good) >= {*range(8, 21)}, good)
    vc.prove("accepted spacings of pulses assemble", not bad, bad)
