"""C03: every number handed to the Qblox sequencer decodes to the requested physical value, or is rejected."""
from engine.core import Fake, unit

H = "quantify_scheduler.backends.qblox.helpers"
Q = "quantify_scheduler.backends.qblox.qasm_program"
V = "quantify_scheduler.backends.qblox.operation_handling.virtual"


def ns_time(vc, name, lo=-10**7, hi=10**12):
    """a time: multiple of 1 ns plus an offset (fuzz makes near-grid values)"""
    k = vc.int(name + ".k", lo, hi)
    e = vc.choice(name + ".kind", ["grid", "near", "free"])
    if e == "grid":
        return k * vc.lit("1e-9") if vc.symbolic else k * 1e-9
    d = vc.real(name + ".d", -0.6, 0.6)
    if e == "near":
        vc.assume(vc.And(d <= vc.lit("0.003"), d >= vc.lit("-0.003")) if vc.symbolic else True)
        if not vc.symbolic:
            d = d * 0.005
    return (k + d) * (vc.lit("1e-9") if vc.symbolic else 1e-9)


@unit("C03.time-grid", "C03", targets=[f"{H}:to_grid_time", f"{H}:is_multiple_of_grid_time"], fuzz=600)
def time_grid(vc):
    """accepted iff within 1.1 ps of an integer ns that is a multiple of the grid; result is that integer"""
    t = ns_time(vc, "t", hi=10**7 if not vc.symbolic else 10**15)
    g = vc.int("grid", 1, 1000)
    f = vc.fn(f"{H}:to_grid_time")
    is_mult = vc.fn(f"{H}:is_multiple_of_grid_time")
    tol = vc.fn("quantify_scheduler.backends.qblox.constants:GRID_TIME_TOLERANCE_TIME")
    vc.prove("documented tolerance is 1.1 ps", abs(tol - 0.0011) < 1e-12)
    o = vc.run(f, t, g)
    m = vc.run(is_mult, t, g)
    ns = t * 10**9
    k = vc.round(ns)
    dist = abs(ns - k)
    eps = 0 if vc.symbolic else 1e-5
    inside = vc.And(dist <= vc.lit("0.0011") - eps, k % g == 0)
    outside = vc.Or(dist > vc.lit("0.0011") + eps, k % g != 0)
    if o.ok:
        vc.prove("integer result is the nearest ns", o.value == k)
        vc.prove("accepted only on grid", vc.Or(vc.Not(outside), False))
        vc.prove("multiple of grid", o.value % g == 0)
        vc.prove("predicate agrees (true)", vc.And(m.ok, m.value == True))  # noqa: E712
    else:
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        vc.prove("rejected only off grid", vc.Not(inside))
        vc.prove("predicate agrees (false)", vc.And(m.ok, m.value == False))  # noqa: E712


@unit("C03.nco-phase", "C03", targets=[f"{H}:get_nco_phase_arguments"], fuzz=400)
def nco_phase(vc):
    """phase immediate decodes to the phase modulo 360 within half a step and is in the hardware range"""
    p = vc.real("phase", -1e5, 1e5)
    f = vc.fn(f"{H}:get_nco_phase_arguments")
    r = vc.call(f, p)
    pm = p - 360 * vc.floor(p / 360)
    vc.prove("in range", vc.And(r >= 0, r <= 10**9))
    tol = vc.lit("0.51") if vc.symbolic else 1.5
    vc.prove("decodes", abs(r - pm * 10**9 / 360) <= tol)


@unit("C03.nco-frequency", "C03", targets=[f"{H}:get_nco_set_frequency_arguments"], fuzz=400)
def nco_freq(vc):
    """frequency immediate decodes within 1/8 Hz; out of +-500 MHz is rejected"""
    q = vc.real("freq", -1e9, 1e9)
    f = vc.fn(f"{H}:get_nco_set_frequency_arguments")
    o = vc.run(f, q)
    if o.ok:
        vc.prove("decodes", abs(o.value - 4 * q) <= vc.lit("0.5"))
        vc.prove("in range", vc.And(o.value >= -2 * 10**9, o.value <= 2 * 10**9))
    else:
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        vc.prove("rejected only out of range", vc.Or(q > 500 * 10**6, q < -500 * 10**6))


@unit("C03.fine-delay", "C03", targets=[f"{H}:convert_qtm_fine_delay_to_int"], fuzz=400)
def fine_delay(vc):
    """QTM fine delay immediate decodes within 1/256 ns, negative or too large delays are rejected"""
    x = vc.real("ns", -2, 20)
    o = vc.run(vc.fn(f"{H}:convert_qtm_fine_delay_to_int"), x * (vc.lit("1e-9") if vc.symbolic else 1e-9))
    if o.ok:
        vc.prove("decodes", abs(o.value - 128 * x) <= (vc.lit("0.5") if vc.symbolic else 0.5001))
        vc.prove("in range", vc.And(o.value >= 0, o.value <= 2047))
    else:
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        vc.prove("rejected only out of range", vc.Or(x < 0, 128 * x > 2047))


def decoded_ok(vc, imm, val, lsb):
    """imm encodes val on a 16-bit scale: nearest step, saturating one step below +1"""
    half = vc.lit("0.5") if vc.symbolic else 0.5000001
    exact = vc.And(imm >= val * lsb - half, imm <= val * lsb + half)
    return vc.And(imm >= -lsb, imm <= lsb - 1, vc.Or(exact, vc.And(imm == lsb - 1, val * lsb > lsb - 1)))


def _prog(vc):
    cls = vc.fn(f"{Q}:QASMProgram")
    from quantify_scheduler.backends.qblox.analog import AnalogModuleCompiler  # noqa: F401
    from quantify_scheduler.backends.qblox.register_manager import RegisterManager

    return vc.call(cls, static_hw_properties=None, register_manager=RegisterManager(), align_fields=False)


def operands(instr, mnemonic, vc):
    assert instr[1] == mnemonic, (instr, mnemonic)
    out = []
    for a in str(instr[2]).split(","):
        if vc.symbolic:
            from engine import rt

            a = rt.decode(a)
        out.append(int(a) if isinstance(a, str) else a)
    return out


class FakeOp(Fake):
    def __init__(self, **data):
        self.data = data
        self.name = data.get("name", "op")


@unit("C03.gain", "C03", targets=[f"{Q}:QASMProgram.set_gain_from_amplitude",
                                  f"{Q}:QASMProgram.expand_awg_from_normalised_range"], fuzz=400)
def gain(vc):
    """set_awg_gain immediates decode to the two path amplitudes; |amp| > 1 is rejected"""
    a = vc.real("amp_I", -1.5, 1.5)
    b = vc.real("amp_Q", -1.5, 1.5)
    p = _prog(vc)
    o = vc.run(p.set_gain_from_amplitude, a, b, None)
    ok = vc.And(abs(a) <= 1, abs(b) <= 1)
    if o.ok:
        vc.prove("accepted only in range", ok)
        vc.prove("one instruction", len(p.instructions) == 1)
        i, q = operands(p.instructions[0], "set_awg_gain", vc)
        vc.prove("path I decodes", decoded_ok(vc, i, a, 32768))
        vc.prove("path Q decodes", decoded_ok(vc, q, b, 32768))
    else:
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        vc.prove("rejected only out of range", vc.Not(ok))
        vc.prove("nothing emitted", len(p.instructions) == 0)


@unit("C03.offset", "C03", targets=[f"{V}:AwgOffsetStrategy.insert_qasm"], fuzz=400)
def offset(vc):
    """set_awg_offs immediates decode to the two path offsets"""
    a = vc.real("off_I", -1.5, 1.5)
    b = vc.real("off_Q", -1.5, 1.5)
    p = _prog(vc)
    s = vc.call(vc.fn(f"{V}:AwgOffsetStrategy"), FakeOp(offset_path_I=a, offset_path_Q=b))
    o = vc.run(s.insert_qasm, p)
    ok = vc.And(abs(a) <= 1, abs(b) <= 1)
    if o.ok:
        vc.prove("accepted only in range", ok)
        i, q = operands(p.instructions[-1], "set_awg_offs", vc)
        vc.prove("one instruction", len(p.instructions) == 1)
        vc.prove("path I decodes", decoded_ok(vc, i, a, 32768))
        vc.prove("path Q decodes", decoded_ok(vc, q, b, 32768))
        vc.prove("takes no time", p.elapsed_time == 0)
    else:
        vc.prove("rejected only out of range", vc.Not(ok))


@unit("C03.phase-instr", "C03", targets=[f"{V}:NcoPhaseShiftStrategy.insert_qasm"], fuzz=400)
def phase_instr(vc):
    """the emitted phase increment equals the requested phase modulo 360 degrees; a zero shift may emit nothing"""
    ph = vc.real("phase", -2000, 2000)
    p = _prog(vc)
    s = vc.call(vc.fn(f"{V}:NcoPhaseShiftStrategy"), FakeOp(phase_shift=ph))
    vc.call(s.insert_qasm, p)
    tot = 0
    for ins in p.instructions:
        if ins[1] == "set_ph_delta":
            tot = tot + operands(ins, "set_ph_delta", vc)[0]
        else:
            vc.prove("only phase increments", ins[1] in ("",))
    d = tot * 360 / 10**9 - ph
    n = vc.round(d / 360)
    vc.prove("net phase", abs(d - 360 * n) <= vc.lit("0.000001"))
    vc.prove("takes no time", p.elapsed_time == 0)


@unit("C03.setfreq-instr", "C03", targets=[f"{V}:NcoSetClockFrequencyStrategy.insert_qasm"], fuzz=300)
def setfreq_instr(vc):
    """changing the clock by d moves the NCO frequency by exactly d (within 1/8 Hz)"""
    old = vc.real("clock_old", 0, 20e9)
    new = vc.real("clock_new", 0, 20e9, gen=lambda r: r.uniform(0, 20e9))
    if not vc.symbolic:
        new = old + (new - 10e9) / 30
    itf = vc.real("if_old", -5e8, 5e8)
    p = _prog(vc)
    s = vc.call(vc.fn(f"{V}:NcoSetClockFrequencyStrategy"),
                FakeOp(clock_freq_new=new, clock_freq_old=old, interm_freq_old=itf, clock="c"))
    o = vc.run(s.insert_qasm, p)
    want = itf + new - old
    if o.ok:
        (a,) = operands(p.instructions[-1], "set_freq", vc)
        vc.prove("decodes", abs(a - 4 * want) <= (vc.lit("0.5") if vc.symbolic else 0.501))
        vc.prove("takes no time", p.elapsed_time == 0)
    else:
        vc.prove("rejected only out of range", abs(want) > 5 * 10**8 - (0 if vc.symbolic else 0.2))
