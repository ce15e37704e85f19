"""C16: compiling leaves its input alone and gives the same result every time."""
from __future__ import annotations

import copy
import os
import subprocess
import sys
import warnings

from engine.core import Fake, unit

COMPILER = "quantify_scheduler.backends.graph_compilation"
TARGETS = [f"{COMPILER}:QuantifyCompiler.compile", f"{COMPILER}:SerialCompiler._compilation_func", "quantify_scheduler.compilation",
           "quantify_scheduler.backends.circuit_to_device", "quantify_scheduler.backends.qblox_backend",
           "quantify_scheduler.backends.corrections", "quantify_scheduler.helpers.waveforms"]


def device(vc):
    """the transmon setup of the package, on its example hardware"""
    from quantify_scheduler.device_under_test import mock_setup
    from quantify_scheduler.schemas.examples import utils

    s = mock_setup.set_up_mock_transmon_setup()
    mock_setup.set_standard_params_transmon(s)
    q = s["quantum_device"]
    q.hardware_config(utils.load_json_example_scheme("qblox_hardware_config_transmon.json"))
    return q


def gates(vc):
    """a random schedule of gates for it"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import gate_library as g
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import LoopOperation

    index = {}

    def body(depth):
        s = Schedule("s", repetitions=vc.length("repetitions", 1, 3) if depth == 2 else 1)
        made = []
        for _ in range(vc.length("operations", 1, 6)):
            k = vc.choice("what", ["Rxy", "Rxy", "Rz", "Rz", "H", "CZ", "Reset", "Measure", "pulse", "again", "again"] + (["loop", "nested"] if depth else []))
            q = vc.choice("qubit", ["q0", "q2"]) if k in ("CZ",) else vc.choice("qubit", ["q0", "q2", "q4"])
            if k == "Rxy":
                op = g.Rxy(theta=vc.choice("theta", [90, 180, -45, 30]), phi=vc.choice("phi", [0, 90, 33]), qubit=q)
            elif k == "Rz":
                op = g.Rz(theta=vc.choice("theta", [90, 180, -45, 30]), qubit=q)
            elif k == "H":
                op = g.H(q)
            elif k == "CZ":
                op = g.CZ("q2", "q3")
            elif k == "Reset":
                op = g.Reset(q)
            elif k == "Measure":
                proto = vc.choice("protocol", ["SSBIntegrationComplex", "ThresholdedAcquisition"] if q == "q0" else ["SSBIntegrationComplex"])
                op = g.Measure(q, acq_protocol=proto, acq_index=index.setdefault((q, proto), 0) if depth == 2 else None)
                if depth == 2:
                    index[q, proto] += 1
            elif k == "pulse":
                op = pl.SquarePulse(amp=round(vc.real("amp", -0.5, 0.5), 3), duration=vc.choice("d", [20e-9, 100e-9, 2e-6]), port=f"{q}:mw", clock=f"{q}.01")
            elif k == "again":
                op = vc.choice("again", made) if made else None
            else:
                op = body(depth - 1)
                if k == "loop":
                    op = LoopOperation(body=op, repetitions=vc.length("reps", 1, 3))
            if op is None:
                continue
            made.append(op)
            s.add(op, rel_time=vc.choice("rel", [0, 0, 100e-9]))
        return s

    return body(2)


def pulses(vc):
    """a random schedule of pulses, acquisitions and control flow"""
    from vlib import qgen

    kw = vc.choice("kinds", [
        dict(kinds=("pulse", "phase", "freq", "cond", "offset", "nested"), pulse_kinds=("square", "ramp", "drag", "numerical", "staircase")),
        dict(kinds=("anyacq", "anyacq", "pulse", "nested"), ports=[*qgen.ACQ_KINDS, ("q0:mw", "q0.01")], big=False, long_ok=False),
        dict(kinds=("stitched", "stitched", "pulse", "phase"), min_amp=0.02),
        dict(kinds=("pulse", "acq", "marker", "timetag", "nested"))])
    return qgen.Gen(vc, amp=0.5, max_slots=4, **kw).schedule()[0]


def made(vc):
    """a schedule, and the configuration for it"""
    from vlib import qprop

    if vc.bool("gates"):
        from qcodes import Instrument

        Instrument.close_all()
        d = device(vc)
        return gates(vc), d.generate_compilation_config(), d
    return pulses(vc), copy.deepcopy(qprop.config()), None


def state(s, cfg, d):
    from vlib import qops

    return (qops.content(s, True), qops.content(cfg), qops.content(d.generate_compilation_config()) if d else None)


def compiled(vc, s, cfg):
    from quantify_scheduler.backends import SerialCompiler

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return vc.run(SerialCompiler("c").compile, s, cfg)


def result(o):
    """what a compilation gave: the instructions and times, or the kind of error"""
    from vlib import qops

    if not o.ok:
        return ("error", type(o.exc).__name__)
    return (qops.content(o.value.compiled_instructions, True), timeline(o.value))


def timeline(s):
    """the operations of a schedule and their times, without the names of its entries (those can be random) or their order"""
    from quantify_scheduler.schedules.schedule import ScheduleBase
    from vlib import qops

    def say(op):
        if isinstance(op, ScheduleBase):
            return ("schedule", tuple(sorted(((x["abs_time"], say(op.operations[x["operation_id"]])) for x in op.schedulables.values()), key=repr)),
                    qops.content(dict(op.resources)), op.repetitions)
        if "body" in op.data.get("control_flow_info", {}):
            return (type(op).__name__, say(op.body), qops.content({k: v for k, v in op.data["control_flow_info"].items() if k != "body"}))
        return qops.content(op, True)

    return say(s)


def same(vc, name, a, b):
    from vlib import qops

    vc.prove(name, a == b, lambda: "; ".join(qops.where(x, y) for x, y in zip(a, b) if x != y)[:1500] if len(a) == len(b) else f"{a[:1]} {b[:1]}"[:500])


@unit("C16.input", "C16", modes=("fuzz",), fuzz=240, budget=100, shards=4, targets=TARGETS)
def untouched(vc):
    """compiling changes neither the schedule nor any configuration, whatever it is and also when it fails"""
    s, cfg, d = made(vc)
    before = state(s, cfg, d)
    o = compiled(vc, s, cfg)
    after = state(s, cfg, d)
    for name, a, b in zip(("schedule", "configuration", "device"), before, after):
        same(vc, f"the {name} is as it was", (a,), (b,))
    if o.ok:
        vc.prove("the result is another object", o.value is not s)
        mine = {id(x) for x in s.operations.values()} | {id(x) for x in s.schedulables.values()}
        vc.prove("the result shares no part of the schedule",
                 not mine & ({id(x) for x in o.value.operations.values()} | {id(x) for x in o.value.schedulables.values()}))


@unit("C16.again", "C16", modes=("fuzz",), fuzz=160, budget=110, shards=4, targets=TARGETS)
def again(vc):
    """compiling once more, a copy, or with other compilations in between, gives the same"""
    s, cfg, d = made(vc)
    kept, first = copy.deepcopy(s), compiled(vc, s, cfg)
    want = result(first)
    other, cfg2, d2 = made(vc) if not d and vc.bool("another configuration") else (gates(vc) if d else pulses(vc), cfg, d)
    compiled(vc, other, cfg2)
    if d and d2 is None:
        d2 = d
    same(vc, "the first result stays as it was", result(first), want)
    same(vc, "the same result after another compilation", result(compiled(vc, s, cfg)), want)
    same(vc, "the same result for a copy made before", result(compiled(vc, kept, cfg)), want)
    same(vc, "the same result for a copy made after", result(compiled(vc, copy.deepcopy(s), cfg)), want)
    if d:
        same(vc, "the same result with a configuration made anew", result(compiled(vc, s, d.generate_compilation_config())), want)


def digests(seed, n, hashes, show=()):
    """what n random schedules become, in a process of its own"""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = {**os.environ, "PYTHONHASHSEED": str(hashes), "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    p = subprocess.run([sys.executable, os.path.join(root, "vlib", "digests.py"), str(seed), str(n), *map(str, show)], env=env, capture_output=True,
                       text=True, timeout=300, check=False)
    out = [x.split(" ", 3) for x in p.stdout.splitlines() if x.startswith("digest ")]
    return out, p


@unit("C16.processes", "C16", modes=("fuzz",), fuzz=4, budget=100, shards=4, targets=TARGETS)
def processes(vc):
    """the same schedule becomes the same in another process, where Python orders sets and hashes text in another way"""
    seed, n = vc.length("seed", 0, 10**6), vc.length("schedules", 25, 25)
    runs = [digests(seed, n, h) for h in (1, vc.length("hash seed", 2, 10**6))]
    for out, p in runs:
        if len(out) != n:
            from engine.core import Unbound

            raise Unbound(f"a compilation ended its process: {p.stderr[-1500:]}")
    for a, b in zip(runs[0][0], runs[1][0]):
        if a != b:
            from vlib import qops

            i = int(a[1])
            x, y = (digests(seed, n, h, (i,))[1].stdout.partition("text ")[2] for h in (1, vc.valuation["hash seed"]))
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), 0)
            vc.prove("the same result in every process", False, f"schedule {i} of seed {seed}: ...{x[max(0, k - 150):k + 150]} | ...{y[max(0, k - 150):k + 150]}")
    vc.prove("the same result in every process", True)
    vc.prove("most of them compile", sum(x[3] == "compiled" for x in runs[0][0]) > n // 4, sum(x[3] == "compiled" for x in runs[0][0]))


# -- the compiler itself -------------------------------------------------------------------------------------------------------
def containers(x, seen=None):
    """identities of everything that can be changed inside x"""
    seen = {} if seen is None else seen
    if id(x) in seen or x is None or isinstance(x, (str, int, float, complex, bool, tuple, type, bytes)):
        if isinstance(x, tuple):
            for y in x:
                containers(y, seen)
        return seen
    seen[id(x)] = x
    if isinstance(x, dict) or hasattr(x, "data") and isinstance(getattr(x, "data", None), dict):
        for y in (x if isinstance(x, dict) else x.data).values():
            containers(y, seen)
    if isinstance(x, (list, set)):
        for y in x:
            containers(y, seen)
    return seen


@unit("C16.compiler", "C16", modes=("prove", "fuzz"), fuzz=300, budget=120,
      targets=[f"{COMPILER}:QuantifyCompiler.compile", f"{COMPILER}:SerialCompiler._compilation_func",
               f"{COMPILER}:SerialCompiler.construct_graph"],
      assumptions=["copy.deepcopy and networkx are trusted", "up to three passes of the device and three of the hardware"])
def compiler(vc):
    """whatever the passes do: they work on a copy that shares nothing with the input, each once, in their order, every time"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import SquarePulse

    keep = vc.choice("keep the original", [True, False])
    compiled_before = vc.choice("compiled before", [False, True])
    counts = [vc.choice("passes of the device", [None, 1, 2, 3]), vc.choice("passes of the hardware", [None, 1, 3])]
    if counts == [None, None]:
        vc.assume(False)
        return
    amp, wait, reps = vc.real("amplitude", -1, 1), vc.real("wait", 0, 1e-3), vc.int("repetitions", 1, 10**6)
    s = Schedule("s", 1)
    inner = Schedule("inner", 1)
    inner.add(SquarePulse(amp=0.25, duration=20e-9, port="p", clock="cl0.baseband"))
    s.add(SquarePulse(amp=0.5, duration=20e-9, port="p", clock="cl0.baseband"), label="first")
    s.add(inner, ref_op="first")
    op = s.operations[s.schedulables["first"]["operation_id"]]
    op.data["pulse_info"][0]["amp"] = amp
    s.schedulables["first"]["abs_time"] = wait
    s["repetitions"] = reps
    if compiled_before:
        s["compiled_instructions"] = {"x": {"y": [1]}}
    mine = containers(s)
    had = dict(s.data.get("compiled_instructions", {}))
    log, shared, fresh = [], [], []

    class Pass(Fake):
        def __init__(self, name):
            self.name = name

        def compilation_func(self, schedule, config):
            log.append((self.name, config is cfg))
            if len(log) == 1 or not shared:
                shared.append([type(y).__name__ for i, y in containers(schedule).items() if i in mine])
                fresh.append(dict(schedule["compiled_instructions"]))
                o = schedule.operations[schedule.schedulables["first"]["operation_id"]]
                vc.prove("the passes get the same schedule", vc.And(
                    vc.eq(o.data["pulse_info"][0]["amp"], amp), vc.eq(schedule.schedulables["first"]["abs_time"], wait),
                    schedule.repetitions == reps, list(schedule.schedulables) == list(s.schedulables)))
            # what a pass may do to what it gets
            schedule["compiled_instructions"][self.name] = len(log)
            schedule.operations[schedule.schedulables["first"]["operation_id"]].data["pulse_info"][0]["amp"] = 0.125
            schedule.schedulables["first"]["abs_time"] = 7.0
            return schedule

    class Config(Fake):
        def __init__(self, passes):
            self.compilation_passes = passes

    class Whole(Fake):
        keep_original_schedule = keep
        device_compilation_config = counts[0] and Config([Pass(f"d{i}") for i in range(counts[0])])
        hardware_compilation_config = counts[1] and Config([Pass(f"h{i}") for i in range(counts[1])])

    cfg = Whole()
    names = [f"d{i}" for i in range(counts[0] or 0)] + [f"h{i}" for i in range(counts[1] or 0)]
    c = vc.call(vc.fn(f"{COMPILER}:SerialCompiler"), "compiler")
    for _ in range(2 if keep else 1):
        log.clear()
        shared.clear()
        fresh.clear()
        out = vc.call(c.compile, schedule=s, config=cfg)
        vc.prove("every pass once, in their order, with the configuration", log == [(n, True) for n in names], log)
        vc.prove("compiled from nothing", fresh == [{}], fresh)
        vc.prove("what the passes made is returned", list(out["compiled_instructions"]) == names,
                 list(out["compiled_instructions"]))
        vc.prove("a compiled schedule", type(out).__name__ == "CompiledSchedule")
        if keep:
            vc.prove("nothing is shared with the original", shared == [[]], shared)
            vc.prove("the original keeps its content", vc.And(
                vc.eq(op.data["pulse_info"][0]["amp"], amp), vc.eq(s.schedulables["first"]["abs_time"], wait),
                s.repetitions == reps, s.data.get("compiled_instructions", {}) == had, containers(s).keys() == mine.keys()))
