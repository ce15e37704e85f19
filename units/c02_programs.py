"""C02: compiled programs, executed by a Q1ASM interpreter, do everything at the scheduled time."""
from engine.core import unit
from vlib.qprop import Case

QASM = "quantify_scheduler.backends.qblox.qasm_program:QASMProgram"
T = [f"{QASM}.auto_wait", f"{QASM}.wait_till_start_operation", f"{QASM}.loop", f"{QASM}.conditional",
     "quantify_scheduler.backends.qblox.compiler_abc:SequencerCompiler.generate_qasm_program",
     "quantify_scheduler.backends.qblox.compiler_abc:SequencerCompiler._parse_operations",
     "quantify_scheduler.backends.qblox.helpers:assign_pulse_and_acq_info_to_devices"]
A = ["Q1ASM interpreter vlib/q1sim.py (from the instruction set documentation)", "bounded: random schedules"]


def obligations(c):
    c.well_formed()
    c.plays()
    c.offsets()
    c.acquisitions()
    c.windows()
    c.nco()
    c.total()


def visible(vc, **kw):
    order = vc.choice("order", ["shuffle", "together", "apart"])
    return Case(vc, amp=0.5, long_ok=False, min_amp=0.02, loopgap=vc.choice("loop gap", [0, 8]),
                shuffle=order == "shuffle", together=order == "together", jitter=vc.bool("jitter"), **kw)


@unit("C02.pulses", "C02", modes=("fuzz",), targets=T, fuzz=2000, shards=4, budget=100, assumptions=A)
def pulses(vc):
    """pulses, offsets and loops on all kinds of outputs"""
    obligations(visible(vc, kinds=("pulse", "pulse", "offset"), pulse_kinds=("numerical", "ramp", "square")))


@unit("C02.clocks", "C02", modes=("fuzz",), targets=T, fuzz=2000, shards=4, budget=100, assumptions=A)
def clocks(vc):
    """clock phases, phase resets and frequencies among pulses, nested schedules and loops"""
    obligations(visible(vc, kinds=("pulse", "phase", "freq", "nested")))


@unit("C02.acquisitions", "C02", modes=("fuzz",), targets=T, fuzz=1600, shards=4, budget=100, assumptions=A)
def acquisitions(vc):
    """acquisitions, markers and input windows"""
    obligations(visible(vc, kinds=("pulse", "acq", "marker", "timetag", "nested"), max_slots=4,
                        acq_protocols=("SSBIntegrationComplex", "ThresholdedAcquisition",
                                       "NumericalSeparatedWeightedIntegration")))


@unit("C02.conditionals", "C02", modes=("fuzz",), targets=T, fuzz=1600, shards=4, budget=100, assumptions=A)
def conditionals(vc):
    """conditional sections between everything else"""
    obligations(visible(vc, kinds=("pulse", "phase", "cond", "offset"), max_slots=4))
