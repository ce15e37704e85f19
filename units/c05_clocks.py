"""C05: local oscillator and NCO frequencies add up to the clock frequency, also while the clock is being changed."""

import math

from engine.core import Fake, unit
from vlib import qcheck, qgen, qhw
from vlib.qprop import Case

H = "quantify_scheduler.backends.qblox.helpers"
AN = "quantify_scheduler.backends.qblox.analog"
IC = "quantify_scheduler.backends.qblox.instrument_compilers"
V = "quantify_scheduler.backends.qblox.operation_handling.virtual"
B = "quantify_scheduler.backends.qblox_backend"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"
REL = 1e-9  # frequencies are the same to the compiler when they agree to this (relative)


def optional(vc, name, lo, hi, near=None):
    """nothing, or a frequency (in fuzz mode sometimes one that is consistent)"""
    if not vc.bool(f"{name} given"):
        return None
    v = vc.real(name, lo, hi)
    if near is not None and not vc.symbolic and vc.bool(f"{name} consistent"):
        return near
    return v


def same(vc, a, b):
    """equal up to the tolerance of the compiler"""
    d, m = abs(a - b), vc.lit("0.000000001")
    return vc.Or(a == b, d <= m * abs(a) * (1 if vc.symbolic else 1.01) + (0 if vc.symbolic else 1e-5),
                 d <= m * abs(b) * (1 if vc.symbolic else 1.01))


def inputs(vc):
    clock = vc.real("clock", 0, 2e10)
    down = optional(vc, "downconverter", -1e9, 3e10)
    rf = clock if down is None else down - clock
    lo = optional(vc, "LO", 0, 2e10, rf if vc.bool("IF nought") else rf - 7e7)
    itf = optional(vc, "IF", -5e8, 5e8, rf - lo if lo is not None else None)
    return clock, down, lo, itf


def expected(vc, clock, down, lo, itf, mix):
    """(is there a solution, LO, IF, output frequency): what the frequencies should be"""
    rf = clock if down is None else down - clock
    ok = True if down is None else vc.And(down >= 0, down >= clock)
    if not mix:
        return (ok if itf is not None else False), rf, itf, rf
    if lo is None and itf is None:
        return False, None, None, rf
    if lo is not None and itf is not None:
        return vc.And(ok, same(vc, lo + itf, rf)), lo, itf, rf
    return ok, (lo if lo is not None else rf - itf), (itf if itf is not None else rf - lo), rf


def check(vc, ok, exp, lo, itf, mix):
    solvable, elo, eif, rf = exp
    if not ok:
        vc.prove("rejected only without a solution", vc.Not(solvable) if solvable is not False else True)
        return
    vc.prove("accepted only with a solution", solvable)
    if solvable is False:
        return
    vc.prove("LO and IF add up to the clock frequency", same(vc, lo + itf if mix else lo, rf))
    vc.prove("LO is the one that was given", same(vc, lo, elo))
    vc.prove("IF is the one that was given", same(vc, itf, eif))


@unit("C05.determine", "C05", targets=[f"{H}:determine_clock_lo_interm_freqs", f"{H}:Frequencies.__post_init__"], fuzz=600,
      assumptions=[FLOAT])
def determine(vc):
    """LO + IF equals the (downconverted) clock, given values are kept, and without a solution there is an error"""
    clock, down, lo, itf = inputs(vc)
    mix = vc.bool("mix_lo")
    nan = float("nan")
    frq = vc.fn(f"{H}:Frequencies")
    fr = vc.call(frq, clock=clock, LO=nan if lo is None and vc.bool("LO nan") else lo,
                 IF=nan if itf is None and vc.bool("IF nan") else itf)
    o = vc.run(vc.fn(f"{H}:determine_clock_lo_interm_freqs"), fr, downconverter_freq=down, mix_lo=mix)
    check(vc, o.ok, expected(vc, clock, down, lo, itf, mix), o.ok and o.value.LO, o.ok and o.value.IF, mix)
    if o.ok:
        vc.prove("the clock frequency is the downconverted one",
                 vc.eq(o.value.clock, clock if down is None else down - clock))


# -- objects that take part: the real sequencer / LO classes, only with what frequencies need ---------------------------------------
class Settings(Fake):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def sequencer(vc, itf, down=None, mix=True, outputs=(0, 1)):
    from quantify_scheduler.backends.qblox.analog import AnalogSequencerCompiler

    class Seq(AnalogSequencerCompiler):
        pass

    Seq.__abstractmethods__ = frozenset()
    s = object.__new__(Seq)
    s._settings = Settings(modulation_freq=itf, nco_en=itf is None or itf != 0, connected_output_indices=list(outputs))
    s.parent = Settings(name="module1")
    s.index = 0
    s.downconverter_freq = down
    s.mix_lo = mix
    s.port, s.clock = "p", "c"
    s.associated_ext_lo = None
    return s


def rf_module():
    class Module(rf_module.cls()):
        pass

    Module.__abstractmethods__ = frozenset()
    return object.__new__(Module)


def _rf():
    from quantify_scheduler.backends.qblox.analog import RFModuleCompiler

    return RFModuleCompiler


rf_module.cls = _rf


def local_oscillator(freq):
    from quantify_scheduler.backends.qblox.instrument_compilers import LocalOscillatorCompiler

    x = object.__new__(LocalOscillatorCompiler)
    x.name, x._frequency = "lo0", freq
    return x


@unit("C05.baseband", "C05", fuzz=600, assumptions=[FLOAT],
      targets=[f"{AN}:BasebandModuleCompiler.assign_frequencies", f"{AN}:AnalogSequencerCompiler.frequency",
               f"{IC}:LocalOscillatorCompiler.frequency"])
def baseband(vc):
    """baseband module: with an external LO the two add up; without one the NCO has the frequency of the clock unless disabled"""
    clock, down, lo, itf = inputs(vc)
    mix, ext = vc.bool("mix_lo"), vc.bool("external LO")
    if vc.bool("NCO disabled"):
        itf = 0
    s = sequencer(vc, itf, down, mix)
    x = local_oscillator(lo) if ext else None
    module = Settings(name="module1")
    o = vc.run(vc.fn(f"{AN}:BasebandModuleCompiler.assign_frequencies"), module, s, x, clock)
    nco = s._settings.modulation_freq
    if ext:
        exp = expected(vc, clock, down, lo, itf, mix)
        if o.ok:
            check(vc, True, exp, x._frequency, nco, mix)
        elif exp[0] is not False:
            # the LO has to be exactly the one of before, so it is rejected also when only about the same
            same_lo = lo is None or vc.eq(exp[1], lo, rel=0, abs=0) if vc.symbolic else lo is None or exp[1] == lo
            vc.prove("rejected only without a solution", vc.Not(vc.And(exp[0], same_lo)))
    elif itf is not None and not isinstance(itf, (int, float)) or itf:
        off = vc.eq(itf, 0, rel=0, abs=0) if vc.symbolic else itf == 0
        if o.ok:
            vc.prove("the NCO has the frequency of the clock", vc.Or(off, same(vc, nco, clock)))
        else:
            vc.prove("rejected only without a solution", vc.And(vc.Not(off), vc.Not(same(vc, itf, clock))))
    else:
        vc.prove("accepted", o.ok)
        vc.prove("the NCO has the frequency of the clock unless it is disabled",
                 vc.eq(nco, clock if itf is None else 0))


@unit("C05.rf", "C05", fuzz=600, assumptions=[FLOAT],
      targets=[f"{AN}:RFModuleCompiler.assign_frequencies", f"{AN}:RFModuleCompiler._set_lo_frequency",
               f"{AN}:RFModuleCompiler._get_lo_frequency", f"{AN}:RFModuleCompiler._get_connected_lo_indices",
               f"{AN}:RFModuleCompiler._validate_lo_index", f"{AN}:AnalogSequencerCompiler.frequency"])
def rf(vc):
    """RF module: internal LO of the output and NCO add up to the clock; the LO of another output is not touched"""
    clock, down, lo, itf = inputs(vc)
    out = vc.choice("output", [0, 1])
    other = vc.real("LO of the other output", 0, 2e10)
    s = sequencer(vc, itf, down, vc.bool("mix_lo"), (2 * out, 2 * out + 1))
    from quantify_scheduler.backends.qblox.instrument_compilers import QCMRFCompiler

    m = object.__new__(QCMRFCompiler)
    m.name = "module2"
    kw = {f"lo{out}_freq": lo, f"lo{1 - out}_freq": other}
    m._settings = Settings(**kw)
    o = vc.run(m.assign_frequencies, s, None, clock)
    exp = expected(vc, clock, down, lo, itf, True)
    check(vc, o.ok, exp, getattr(m._settings, f"lo{out}_freq"), s._settings.modulation_freq, True)
    vc.prove("the LO of another output stays", vc.eq(getattr(m._settings, f"lo{1 - out}_freq"), other))


@unit("C05.shared", "C05", fuzz=600, assumptions=[FLOAT],
      targets=[f"{AN}:RFModuleCompiler.assign_frequencies", f"{AN}:BasebandModuleCompiler.assign_frequencies",
               f"{IC}:LocalOscillatorCompiler.frequency", f"{AN}:RFModuleCompiler._set_lo_frequency"])
def shared(vc):
    """two sequencers with one LO: once both are assigned, both add up with the same LO"""
    from quantify_scheduler.backends.qblox.instrument_compilers import QCMRFCompiler

    ext = vc.bool("external")
    lo = vc.real("LO", 0, 2e10) if vc.bool("LO given") else None
    clocks, seqs = [], []
    x = local_oscillator(lo)
    m = object.__new__(QCMRFCompiler)
    m.name, m._settings = "module2", Settings(lo0_freq=lo, lo1_freq=None)
    ok = True
    for i in range(2):
        clock = vc.real(f"clock{i}", 0, 2e10)
        itf = vc.real(f"IF{i}", -5e8, 5e8) if vc.bool(f"IF{i} given") else None
        if not vc.symbolic and i and itf is not None and vc.bool("consistent"):
            itf = clock - (x._frequency if ext else m._settings.lo0_freq)
        clocks.append(clock)
        seqs.append(sequencer(vc, itf))
        if ext:
            o = vc.run(vc.fn(f"{AN}:BasebandModuleCompiler.assign_frequencies"), Settings(name="module1"), seqs[i], x, clock)
        else:
            o = vc.run(m.assign_frequencies, seqs[i], None, clock)
        ok = ok and o.ok
        if not ok:
            vc.prove("the first is rejected only if nothing is given", i == 1 or (lo is None and itf is None) or
                     (lo is not None and itf is not None and not vc.symbolic) or lo is not None)
            return
    f = x._frequency if ext else m._settings.lo0_freq
    for i in range(2):
        vc.prove("LO and IF add up to the clock frequency of both", same(vc, f + seqs[i]._settings.modulation_freq, clocks[i]))
    if lo is not None:
        vc.prove("the LO is the one that was given", same(vc, f, lo))


# -- changing the clock frequency --------------------------------------------------------------------------------------------------
class Prog(Fake):
    """records what is emitted"""

    def __init__(self):
        self.out = []

    def emit(self, name, *args, comment=""):
        self.out.append((name, args))


@unit("C05.change", "C05", fuzz=400, assumptions=[FLOAT],
      targets=[f"{AN}:AnalogSequencerCompiler._update_set_clock_frequency_operations",
               f"{V}:NcoSetClockFrequencyStrategy.insert_qasm"])
def change(vc):
    """each sequencer of a clock that is set to a new frequency moves its own NCO such that the output moves with the clock"""
    from quantify_scheduler.backends.types.qblox import OpInfo

    old = vc.real("clock", 1e9, 2e10)
    new = old + (vc.real("change", -1e8, 1e8))
    info = OpInfo(name="SetClockFrequency", timing=0.0, data={
        "clock_freq_new": new if vc.bool("new given") else None, "clock_freq_old": old, "clock": "c", "port": None, "duration": 0.0})
    if info.data["clock_freq_new"] is None:
        new = old
    seqs = []
    for i in range(vc.length("sequencers", 1, 3)):
        s = sequencer(vc, vc.real(f"IF{i}", -3e8, 3e8), None)
        s.downconverter_freq = vc.choice("downconverter", [None, 0, 2.5e10])
        if vc.bool("rf"):
            s.parent = rf_module()
        elif vc.bool("external lo"):
            s.associated_ext_lo = "lo0"
        s.mirrored = bool(s.downconverter_freq) and (s.associated_ext_lo is not None or isinstance(s.parent, rf_module.cls()))
        s.op_strategies = [vc.call(vc.fn(f"{V}:NcoSetClockFrequencyStrategy"), info)]
        seqs.append(s)
    for s in seqs:
        vc.call(s._update_set_clock_frequency_operations)
    for s in seqs:
        p = Prog()
        for st in s.op_strategies:
            vc.call(st.insert_qasm, p)
        vc.prove("one instruction", len(p.out) == 1 and p.out[0][0] == "set_freq")
        d = old - new if s.mirrored else new - old
        vc.prove("the NCO moves with the clock",
                 abs(p.out[0][1][0] - 4 * (s._settings.modulation_freq + d)) <= (vc.lit("0.5") if vc.symbolic else 0.501))


def ports(vc):
    """RF outputs that share clocks, and the options for them"""
    opts, pcs = {}, []
    for port in ("q0:mw", "q1:mw"):
        for clock in ("q0.01", "q0.12", "q1.01"):
            if vc.bool("used"):
                pcs.append((port, clock))
                opts[f"{port}-{clock}"] = frequencies(vc, qhw.CLOCKS[clock], {"q0:mw": 4.85e9, "q1:mw": 5.0e9}[port])
    return pcs, opts


def frequencies(vc, clock, lo):
    k = vc.choice("given", ["lo", "if", "if", "both", "none", "other lo", "null"])
    near = clock - lo
    return {"lo": {"lo_freq": lo}, "if": {"interm_freq": near}, "both": {"lo_freq": lo, "interm_freq": near}, "none": {},
            "other lo": {"lo_freq": lo + vc.choice("off", [0, 1e6, -20e6])}, "null": {"lo_freq": None, "interm_freq": near}}[k]


def settings(compiled, mod, ch, pc=None):
    m = compiled.compiled_instructions["cluster0"][f"cluster0_module{mod}"]
    return m["settings"], [q for q in m["sequencers"].values() if q.channel_name == ch]


def compile_(vc, sched, cfg):
    return vc.run(qhw.compile_, sched, cfg)


@unit("C05.config-rf", "C05", modes=("fuzz",), fuzz=500, shards=4,
      targets=["quantify_scheduler.backends.types.qblox:RFModuleSettings.extract_settings_from_mapping",
               f"{B}:hardware_compile"])
def config_rf(vc):
    """any combination of given LO / IF frequencies for outputs of an RF module that share clocks and LOs"""
    import re

    from quantify_scheduler.operations import pulse_library as pl

    pcs, opts = ports(vc)
    if not pcs:
        return
    down = {p: (9.8e9 if vc.bool("downconverted") else None) for p in ("q0:mw", "q1:mw")}
    if any(down.values()):
        # keep given frequencies consistent often enough: the downconverted clock is what has to be reached
        for (p, c) in pcs:
            if down[p] is not None and "interm_freq" in opts[f"{p}-{c}"] and vc.bool("consistent"):
                opts[f"{p}-{c}"]["interm_freq"] = down[p] - qhw.CLOCKS[c] - {"q0:mw": 4.85e9, "q1:mw": 5.0e9}[p]
    cfg = qhw.config()
    order = list(opts)
    if vc.bool("reversed"):
        order.reverse()
    cfg["hardware_options"]["modulation_frequencies"] = {k: opts[k] for k in order if opts[k] or vc.bool("empty entry")}
    opts = {k: opts[k] for k in opts}
    for i, p in enumerate(("q0:mw", "q1:mw")):
        if down[p] is not None:
            cfg["hardware_description"]["cluster0"]["modules"]["2"][f"complex_output_{i}"] = {"downconverter_freq": down[p]}
    s = qhw.new_schedule()
    changes, first = {}, True
    use = list(pcs)
    if vc.bool("swap"):
        use.reverse()
    for p, c in use:
        s.add(pl.SquarePulse(amp=0.1, duration=40e-9, port=p, clock=c), rel_time=0 if first else 8e-9)
        first = False
        if vc.bool("change"):
            f = qhw.CLOCKS[c] + round(vc.real("df", -50e6, 50e6))
            s.add(pl.SetClockFrequency(clock=c, clock_freq_new=f), rel_time=8e-9)
            changes.setdefault(c, []).append(f)
    s.add(pl.IdlePulse(40e-9))
    o = compile_(vc, s, cfg)
    los, ok = {}, True
    for p in ("q0:mw", "q1:mw"):
        cl = {c: (qhw.CLOCKS[c] if down[p] is None else down[p] - qhw.CLOCKS[c], opts[f"{p}-{c}"]) for q, c in pcs if q == p}
        given = {x["lo_freq"] for _, x in cl.values() if x.get("lo_freq") is not None}
        given |= {f - x["interm_freq"] for f, x in cl.values() if "interm_freq" in x}
        if cl and (not given or max(given) - min(given) > 1):
            ok = False
        elif cl:
            los[p] = min(given)
    if not o.ok:
        # a port-clock without any given frequency may come before the one that determines the LO
        vague = any(not opts[f"{p}-{c}"] or "lo_freq" not in opts[f"{p}-{c}"] and False for p, c in pcs)
        big = any(p in los and abs((qhw.CLOCKS[c] if down[p] is None else down[p] - qhw.CLOCKS[c]) - los[p]) > 440e6 for p, c in pcs)
        vc.prove("rejected only without a solution", not ok or vague or big, (repr(o.exc)[:300], opts, down))
        return
    vc.prove("accepted only with a solution", ok, (opts, down))
    if not ok:
        return
    st, seqs = settings(o.value, 2, "complex_output_0")[0], {}
    m = o.value.compiled_instructions["cluster0"]["cluster0_module2"]["sequencers"]
    for i, p in enumerate(("q0:mw", "q1:mw")):
        qs = [q for q in m.values() if q.channel_name == f"complex_output_{i}"]
        cl = [c for q, c in pcs if q == p]
        vc.prove("one sequencer for each port-clock", len(qs) == len(cl), (p, len(qs), cl))
        if not cl:
            continue
        lo = getattr(st, f"lo{i}_freq")
        vc.prove("the LO is the one that was given", lo is not None and abs(lo - los[p]) < 10, (p, lo, los[p], opts))
        want = sorted(((qhw.CLOCKS[c] if down[p] is None else down[p] - qhw.CLOCKS[c]) - lo,
                       tuple((f if down[p] is None else down[p] - f) - lo for f in changes.get(c, []))) for c in cl)
        got = sorted((q.modulation_freq, tuple(int(v) / 4 for v in re.findall(r"set_freq\s+(-?\d+)", q.sequence["program"])))
                     for q in qs)
        vc.prove("every NCO is on", all(q.nco_en or q.modulation_freq == 0 for q in qs))
        vc.prove("LO and IF add up to the clock frequency", all(abs(x - y) < 10 for (x, _), (y, _) in zip(want, got)), (p, want, got))
        vc.prove("the NCO moves with the clock",
                 all(len(a) == len(b) and all(abs(x - y) < 10 for x, y in zip(a, b)) for (_, a), (_, b) in zip(want, got)),
                 (p, want, got))


@unit("C05.config-baseband", "C05", modes=("fuzz",), fuzz=500, shards=4,
      targets=[f"{B}:hardware_compile", f"{B}:QbloxHardwareCompilationConfig._extract_instrument_compilation_configs"])
def config_baseband(vc):
    """baseband module with an external LO and a mixer: any combination of given LO / IF frequencies"""
    import re

    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.resources import ClockResource

    clocks = {"m.a": 6.0e9, "m.b": 6.1e9, "m.c": 5.9e9}
    base = 5.95e9
    use = [c for c in clocks if vc.bool("used")]
    if not use:
        return
    mix = vc.choice("mix", [True, True, None, False])
    cfg = qhw.config()
    g = [e for e in cfg["connectivity"]["graph"] if e[1] != "c0:mw"]
    cfg["connectivity"]["graph"] = g + [["cluster0.module1.complex_output_1", "iq0.if"], ["lo0.output", "iq0.lo"], ["iq0.rf", "c0:mw"]]
    cfg["hardware_description"]["lo0"] = {"instrument_type": "LocalOscillator", "power": 1}
    if vc.bool("instrument name"):
        cfg["hardware_description"]["lo0"]["instrument_name"] = "generator"
    cfg["hardware_description"]["iq0"] = {"instrument_type": "IQMixer"}
    if mix is not None:
        cfg["hardware_description"]["cluster0"]["modules"]["1"]["complex_output_1"] = {"mix_lo": mix}
    mix = mix is not False
    opts = {c: frequencies(vc, clocks[c], base) for c in use}
    order = list(use)
    if vc.bool("reversed"):
        order.reverse()
    cfg["hardware_options"]["modulation_frequencies"] = {f"c0:mw-{c}": opts[c] for c in order if opts[c] or vc.bool("empty entry")}
    s = qhw.new_schedule()
    for c in use:
        s.add_resource(ClockResource(c, clocks[c]))
    changes = {}
    if vc.bool("swap"):
        use = use[::-1]
    for i, c in enumerate(use):
        s.add(pl.SquarePulse(amp=0.1, duration=40e-9, port="c0:mw", clock=c), rel_time=8e-9 if i else 0)
        if mix and vc.bool("change"):
            f = clocks[c] + round(vc.real("df", -50e6, 50e6))
            s.add(pl.SetClockFrequency(clock=c, clock_freq_new=f), rel_time=8e-9)
            changes.setdefault(c, []).append(f)
    s.add(pl.IdlePulse(40e-9))
    o = compile_(vc, s, cfg)
    if mix:
        given = {x["lo_freq"] for x in opts.values() if x.get("lo_freq") is not None}
        given |= {clocks[c] - x["interm_freq"] for c, x in opts.items() if "interm_freq" in x}
    else:
        given = {clocks[c] for c in use} | {x["lo_freq"] for x in opts.values() if x.get("lo_freq") is not None}
    ok = bool(given) and max(given) - min(given) <= 1 and (mix or all("interm_freq" in x for x in opts.values()))
    if not o.ok:
        vague = any(not x for x in opts.values())
        vc.prove("rejected only without a solution", not ok or vague, (repr(o.exc)[:300], opts))
        return
    vc.prove("accepted only with a solution", ok, (opts, mix))
    if not ok:
        return
    gen = o.value.compiled_instructions.get("generic", {})
    lo = next((v for k, v in gen.items() if k.endswith(".frequency")), None)
    vc.prove("the LO has the frequency that was given", lo is not None and abs(lo - min(given)) < 10, (lo, given))
    m = o.value.compiled_instructions["cluster0"]["cluster0_module1"]["sequencers"]
    qs = [q for q in m.values() if q.channel_name == "complex_output_1"]
    vc.prove("one sequencer for each port-clock", len(qs) == len(use))
    want = sorted((clocks[c] - lo if mix else opts[c]["interm_freq"], tuple(f - lo for f in changes.get(c, []))) for c in use)
    got = sorted((q.modulation_freq, tuple(int(v) / 4 for v in re.findall(r"set_freq\s+(-?\d+)", q.sequence["program"]))) for q in qs)
    vc.prove("LO and IF add up to the clock frequency", all(abs(x - y) < 10 for (x, _), (y, _) in zip(want, got)), (want, got))
    vc.prove("the NCO moves with the clock",
             all(len(a) == len(b) and all(abs(x - y) < 10 for x, y in zip(a, b)) for (_, a), (_, b) in zip(want, got)), (want, got))


@unit("C05.nco", "C05", modes=("fuzz",), fuzz=500, shards=4,
      targets=[f"{AN}:AnalogSequencerCompiler.prepare", f"{B}:hardware_compile"])
def nco(vc):
    """whole schedules: every change of a clock frequency happens at its time, on every sequencer of the clock, inside of
    loops and inner schedules as well"""
    c = Case(vc, kinds=("pulse", "freq", "freq", "phase", "nested"), amp=0.5, pulse_kinds=("square", "ramp"), min_amp=0.02,
             long_ok=False, loopgap=vc.choice("loop gap", [0, 8]), shuffle=vc.bool("shuffle"))
    if c.compiled is None:
        return
    c.nco()
    c.plays()


@unit("C05.lo-settings", "C05", fuzz=300, assumptions=[FLOAT, "at most three port-clock combinations per module"],
      targets=["quantify_scheduler.backends.types.qblox:RFModuleSettings.extract_settings_from_mapping"])
def lo_settings(vc):
    """the LO of an RF output gets the frequency given for any of its port-clocks; contradictions are rejected, other outputs are
    not concerned"""
    pcs, freqs, given = {}, {}, {}
    channels = ["complex_output_0", "complex_output_5", "complex_input_0"]
    base = vc.real("base", 1e9, 2e10)
    for i in range(vc.length("portclocks", 0, 3)):
        ch = vc.choice("channel", channels)
        pcs[f"p{i}-c"] = Settings(channel_name=ch)
        f = None
        if vc.bool("given"):
            f = base if vc.bool("the base") else vc.real(f"LO{i}", 1e9, 2e10)
            given.setdefault(ch, []).append(f)
        if f is not None or vc.bool("options"):
            freqs[f"p{i}-c"] = Settings(lo_freq=f, interm_freq=None)
    mapping = Settings(portclock_to_path=pcs, hardware_options=Settings(
        modulation_frequencies=None if not freqs and vc.bool("no options") else freqs))
    cls = vc.fn("quantify_scheduler.backends.types.qblox:RFModuleSettings")
    o = vc.run(cls.extract_settings_from_mapping, mapping)
    given.pop("complex_input_0", None)
    agree = vc.And(*[same(vc, a, b) for v in given.values() for i, a in enumerate(v) for b in v[:i]])
    if o.ok:
        for i in range(6):
            got, want = getattr(o.value, f"lo{i}_freq"), given.get(f"complex_output_{i}", [])
            vc.prove("no LO frequency when none is given", (got is None) == (not want))
            for w in want:
                vc.prove("the LO frequency is the one that was given", got is not None and same(vc, got, w))
    else:
        vc.prove("rejected only when contradictory", vc.Not(agree), str(o.exc))
