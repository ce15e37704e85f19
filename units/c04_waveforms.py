"""C04: uploaded waveform x gain is the pulse's waveform; waveforms are not mixed up; what does not fit is rejected."""
import numpy as np

from engine import garr as G
from engine.core import Fake, unit
from units.c03_encoding import _prog, operands

P = "quantify_scheduler.backends.qblox.operation_handling.pulses"
A = "quantify_scheduler.backends.qblox.operation_handling.acquisitions"
B = "quantify_scheduler.backends.qblox.helpers"
H = "quantify_scheduler.helpers.waveforms"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"
FULL = 32768


class Info(Fake):
    """stands in for OpInfo: the strategies use only data, name and str/repr"""

    def __init__(self, **data):
        self.data = data
        self.name = "pulse"


def waveform(vc, name="data", kinds=("real", "complex")):
    """arbitrary samples"""
    kind = vc.choice(name + ".kind", list(kinds))
    return G.array(vc, name, kind, None, None) if vc.symbolic else G.array(vc, name, kind, -1.25, 1.25, nhi=12)


def index(vc, data):
    return G.index(vc, data)


def parts(x):
    return G.re_(x), G.im_(x)


def near(vc, a, b, tol=0):
    t = tol if vc.symbolic else tol + 1e-9
    return vc.And(a - b <= t, b - a <= t)


@unit("C04.normalise", "C04", targets=[f"{H}:normalize_waveform_data"], fuzz=400, assumptions=[FLOAT])
def normalise(vc):
    """rescaled samples x amplitudes give the data back, rescaled samples are within full scale"""
    data = waveform(vc)
    i = index(vc, data)
    re, im = parts(G.at(data, i))
    o = vc.run(vc.fn(f"{H}:normalize_waveform_data"), data)
    vc.prove("total", o.ok, repr(o.exc))
    norm, ai, aq = o.value
    vc.prove("as many samples", G.length(norm) == G.length(data))
    ni, nq = parts(G.at(norm, i))
    vc.prove("path I is reproduced", near(vc, ni * ai, re))
    vc.prove("path Q is reproduced", near(vc, nq * aq, im))
    vc.prove("path I fits", near(vc, ni, 0, 1))
    vc.prove("path Q fits", near(vc, nq, 0, 1))
    vc.prove("amplitude I bounds the data", vc.Or(vc.And(re <= ai, re >= -ai), vc.And(re <= -ai, re >= ai)))
    vc.prove("amplitude Q bounds the data", vc.Or(vc.And(im <= aq, im >= -aq), vc.And(im <= -aq, im >= aq)))


class Memory(Fake):
    """contract of add_to_wf_dict_if_unique: the waveform is stored under the index returned"""

    def __init__(self, vc):
        self.waves = []
        if vc.symbolic:
            vc.stub(f"{B}:add_to_wf_dict_if_unique", lambda wf_dict, waveform: self.add(waveform))

    def add(self, w):
        self.waves.append(w)
        return len(self.waves) - 1

    def at(self, d, k, i):
        if self.waves:
            return G.at(self.waves[int(k)], i)
        return [w for w in d.values() if w["index"] == int(k)][0]["data"][i]


@unit("C04.pulse", "C04", targets=[f"{P}:GenericPulseStrategy.generate_data", f"{P}:GenericPulseStrategy.insert_qasm",
                                   f"{H}:normalize_waveform_data"], fuzz=800, assumptions=[FLOAT], budget=120)
def pulse(vc):
    """for every sample: the waveforms played x the gains set are the data within one step; the rest is rejected"""
    data = waveform(vc)
    i = index(vc, data)
    channel = vc.choice("channel", ["complex_output_0", "real_output_1"])
    mem = Memory(vc)
    vc.stub(f"{B}:generate_waveform_data", lambda *a, **k: data)
    if vc.symbolic:
        info = Info()
    else:
        n = len(data)
        info = Info(wf_func="quantify_scheduler.waveforms.interpolated_complex_waveform", samples=list(data) + [0.0],
                    t_samples=[k * 1e-9 for k in range(n + 1)], duration=n * 1e-9)
    st = vc.call(vc.fn(f"{P}:GenericPulseStrategy"), info, channel)
    p = _prog(vc)
    d = {}
    o = vc.run(st.generate_data, d)
    if o.ok:
        o = vc.run(st.insert_qasm, p)
    re, im = parts(G.at(data, i))
    if not o.ok:
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        vc.prove("nothing is played", not [x for x in p.instructions if x[1] == "play"])
        big = G.any_(vc, data, lambda v: vc.Or(abs(G.re_(v)) > 1, abs(G.im_(v)) > 1))
        cplx = G.any_(vc, data, lambda v: vc.Not(vc.eq(G.im_(v), 0)))
        vc.prove("rejected only if it does not fit", vc.Or(big, vc.And(cplx, "real" in channel)))
        return
    if "real" in channel:
        vc.prove("complex waveforms are rejected on real outputs", vc.eq(im, 0))
    vc.prove("at most full scale", vc.And(abs(re) <= 1, abs(im) <= 1))
    ins = [x for x in p.instructions if x[1]]
    kinds = [x[1] for x in ins]
    lsb = vc.lit("1") / FULL
    if kinds == ["upd_param"]:
        vc.prove("only a vanishing pulse is not played", vc.And(near(vc, re, 0, lsb), near(vc, im, 0, lsb)))
    else:
        vc.prove("gain is set, then the waveforms are played", kinds == ["set_awg_gain", "play"], kinds)
        gi, gq = operands(ins[0], "set_awg_gain", vc)
        wi, wq, dur = operands(ins[1], "play", vc)
        for path, g, w, want, part in (("I", gi, wi, re, G.re_), ("Q", gq, wq, im, G.im_)):
            got = g * mem.at(d, w, i) / FULL
            small = vc.Not(G.any_(vc, data, lambda v: abs(part(v)) >= lsb - (0 if vc.symbolic else 1e-12)))
            vc.prove(f"path {path} within one step (if it is below one step: puts out at most one step)",
                     vc.Or(near(vc, got, want, lsb), vc.And(small, near(vc, got, 0, lsb))))
        vc.prove("takes 4 ns of program time", dur == 4)
    vc.prove("time advances by 4 ns", p.elapsed_time == 4)


@unit("C04.dictionary", "C04", targets=[f"{B}:add_to_wf_dict_if_unique"], modes=("bounded", "fuzz"), fuzz=600,
      bounded={"len": 4, "max_paths": 4000}, budget=60,
      assumptions=["bounded: dictionaries of up to 4 waveforms with arbitrary indices",
                   "the hash of the samples has no collisions (symbolic run)"])
def dictionary(vc):
    """a known waveform keeps its index; a new one gets an index nobody uses and nothing else changes"""
    n = vc.length("entries", 0, 4)
    waves = [np.array([0.25 * k, 1.0 - 0.125 * k, -0.5]) for k in range(n + 1)]
    uuid = vc.fn(f"{B}:generate_uuid_from_wf_data")
    key = vc.choice("waveform", list(range(n + 1)))
    named = vc.choice("user names", [False, True])  # entries with names chosen by the user (Q1ASM injection)
    ids = [vc.int(f"index {k}", 0, None if vc.symbolic else 6) for k in range(n)]
    if vc.symbolic:
        for a in range(n):
            for b in range(a):
                vc.assume(vc.Not(vc.eq(ids[a], ids[b])))
    else:
        ids = [x if x not in ids[:k] else 10 + k for k, x in enumerate(ids)]
    d = {(f"user{k}" if named and k % 2 else uuid(waves[k])): {"data": waves[k].tolist(), "index": ids[k]}
         for k in range(n)}
    before = dict(d)
    o = vc.run(vc.fn(f"{B}:add_to_wf_dict_if_unique"), d, waves[key])
    vc.prove("total", o.ok, repr(o.exc))
    known = uuid(waves[key]) in before
    vc.prove("existing entries stay", all(d.get(k) is v for k, v in before.items()))
    if known:
        vc.prove("known waveform: its index", vc.eq(o.value, before[uuid(waves[key])]["index"]))
        vc.prove("known waveform: nothing added", len(d) == len(before))
    else:
        new = [v for k, v in d.items() if k not in before]
        vc.prove("one waveform added", len(new) == 1 and new[0]["data"] == waves[key].tolist())
        vc.prove("the index returned is the index stored", vc.eq(o.value, new[0]["index"]))
        for k in range(n):
            vc.prove("index not in use", vc.Not(vc.eq(o.value, ids[k])))


@unit("C04.sharing", "C04", targets=[f"{B}:add_to_wf_dict_if_unique", f"{B}:generate_uuid_from_wf_data"],
      modes=("fuzz",), fuzz=800, budget=30, assumptions=["bounded: random sequences of waveforms"])
def sharing(vc):
    """after any sequence of additions every index leads to the samples it was returned for"""
    d, got, made = {}, [], []
    for k in range(vc.length("additions", 1, 12)):
        if made and vc.bool("similar"):
            w = np.array(vc.choice("which", made))
            how = vc.choice("change", ["same", "one sample", "sign", "order", "longer", "shorter", "tiny"])
            j = vc.length("sample", 0, len(w) - 1)
            if how == "one sample":
                w[j] += vc.choice("by", [1e-3, 1e-6, 1e-9, 1e-11])
            elif how == "sign":
                w = -w
            elif how == "order":
                w = w[::-1].copy()
            elif how == "longer":
                w = np.append(w, 0.0)
            elif how == "shorter" and len(w) > 1:
                w = w[:-1]
            elif how == "tiny":
                w[j] += 1e-14
        else:
            w = G.array(vc, f"wave{k}", "real", -1, 1, nhi=10)
        made.append(w)
        got.append((w, vc.run(vc.fn(f"{B}:add_to_wf_dict_if_unique"), d, w).value))
    by = {}
    for e in d.values():
        vc.prove("indices are not reused", e["index"] not in by)
        by[e["index"]] = np.array(e["data"])
    for w, k in got:
        vc.prove("the samples under the index are the waveform's",
                 k in by and by[k].shape == w.shape and float(np.max(np.abs(by[k] - w))) <= 2e-12, (k, w))


@unit("C04.weights", "C04", targets=[f"{A}:WeightedAcquisitionStrategy.generate_data",
                                     f"{A}:WeightedAcquisitionStrategy._acquire_with_immediate_bin_index",
                                     f"{A}:WeightedAcquisitionStrategy._acquire_with_register_bin_index"],
      fuzz=600, assumptions=[FLOAT, "rejection of weights outside -1..1: fuzz only"], budget=60)
def weights(vc):
    """the acquisition instruction refers to the uploaded weights of path A and B; others are rejected"""
    ws = [waveform(vc, n) for n in ("a", "b")]
    i = [index(vc, w) if not vc.symbolic else G.index(vc, w, f"index{k}") for k, w in enumerate(ws)]
    if vc.symbolic:  # (the other samples: the error message enumerates them)
        for w in ws:
            vc.assume(vc.Not(G.any_(vc, w, lambda v: vc.Or(abs(G.re_(v)) > 1, abs(G.im_(v)) > 1))))
            vc.assume(vc.Or(isinstance(G.at(w, 0), type(vc.real("x"))), vc.Not(
                G.any_(vc, w, lambda v: G.re_(v) * G.re_(v) + G.im_(v) * G.im_(v) > 1))))
    mem = Memory(vc)
    todo = list(ws)
    vc.stub(f"{B}:generate_waveform_data", lambda *a, **k: todo.pop(0))
    def desc(w):
        if vc.symbolic:
            return {"wf_func": "square", "duration": 1e-6}
        return {"wf_func": "quantify_scheduler.waveforms.interpolated_complex_waveform", "samples": list(w) + [0.0],
                "t_samples": [k * 1e-9 for k in range(len(w) + 1)], "duration": (len(w) + 1) * 1e-9}
    extra = vc.choice("number", [0, 1])
    info = Info(bin_mode="append", acq_channel=0, acq_index=0, waveforms=[desc(w) for w in ws] + [desc(ws[0])] * extra)
    st = vc.call(vc.fn(f"{A}:WeightedAcquisitionStrategy"), info)
    d = {}
    o = vc.run(st.generate_data, d)
    if not o.ok:
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))
        bad = [vc.Or(G.any_(vc, w, lambda v: G.re_(v) * G.re_(v) + G.im_(v) * G.im_(v) > 1 - 1e-9),
                     G.is_cx(G.at(w, 0))) for w in ws]
        vc.prove("rejected only if it does not fit", vc.Or(extra == 1, *bad))
        return
    vc.prove("two weights", extra == 0)
    p = _prog(vc)
    st.qblox_acq_index = 3
    st.qblox_acq_bin = 7
    st.bin_idx_register = "R9"
    how = vc.choice("bin", ["immediate", "register"])
    vc.call(getattr(st, f"_acquire_with_{how}_bin_index"), p)
    ins = [x for x in p.instructions if x[1] == "acquire_weighed"]
    vc.prove("one acquisition", len(ins) == 1)
    reg = {x[2].split(",")[1]: x[2].split(",")[0] for x in p.instructions if x[1] == "move"}
    ops = [reg.get(x, x) for x in str(ins[0][2]).split(",")]
    vc.prove("index and bin", ops[0] == "3" and ops[1] == ("7" if how == "immediate" else "R9"), ops)
    for k, w in enumerate(ws):
        vc.prove("complex weights are rejected", vc.eq(G.im_(G.at(w, i[k])), 0))
        vc.prove("weight is uploaded", near(vc, mem.at(d, ops[2 + k], i[k]), G.re_(G.at(w, i[k]))), (k, ops))
        vc.prove("weight is in range", near(vc, G.re_(G.at(w, i[k])), 0, 1))


@unit("C04.memory", "C04", targets=["quantify_scheduler.backends.qblox.compiler_abc:SequencerCompiler._validate_awg_dict"],
      modes=("bounded", "fuzz"), fuzz=200, bounded={"len": 4, "max_paths": 2000},
      assumptions=["bounded: up to 4 waveforms of any length"])
def memory(vc):
    """rejected if and only if the samples exceed the memory or two waveforms share an index"""
    class Seq(Fake):
        port, clock = "p", "c"
    n = vc.length("waveforms", 0, 4)
    d, tot, dup = {}, 0, []
    for k in range(n):
        m = vc.int(f"size {k}", 0, None if vc.symbolic else vc.choice("size", [100, 6000, 16384]))
        ix = vc.int(f"index {k}", 0, 4 if vc.symbolic else 20)
        d[k] = {"data": G.GArr(m, lambda j: 0.0, "r") if vc.symbolic else [0.0] * m, "index": ix}
        dup += [vc.eq(ix, d[j]["index"]) for j in range(k)]
        tot = tot + m
    f = vc.fn("quantify_scheduler.backends.qblox.compiler_abc:SequencerCompiler._validate_awg_dict")
    o = vc.run(f, Seq(), d)
    bad = vc.Or(tot > 16384, *dup)
    if o.ok:
        vc.prove("accepted only if it fits", vc.Not(bad))
    else:
        vc.prove("rejected only if it does not fit", bad)
        vc.prove("with an explanation", isinstance(o.exc, RuntimeError))


PROGRAM = [f"{P}:GenericPulseStrategy.generate_data", f"{P}:GenericPulseStrategy.insert_qasm",
           "quantify_scheduler.backends.qblox.compiler_abc:SequencerCompiler._generate_awg_dict"]
SIM = ["Q1ASM interpreter vlib/q1sim.py (from the instruction set documentation)", "bounded: random schedules"]


@unit("C04.output", "C04", modes=("fuzz",), targets=PROGRAM, fuzz=1600, shards=4, budget=80, assumptions=SIM)
def output(vc):
    """what the compiled program puts out: every pulse's waveform, among others of the same or similar shape"""
    from vlib.qprop import Case

    tiny = [0.0, 1e-5, -2e-5, 4e-5]
    c = Case(vc, kinds=("pulse",), must_compile=False, amp=1.0, long_ok=vc.bool("long"), loopgap=8, taken=True, big=False,
             ports=None if vc.bool("all ports") else [vc.choice("port", PORTS())],
             palette=[0.5, -0.5, 1.0, -1.0] + (tiny if vc.bool("small") else []),
             pulse_kinds=("square", "ramp", "drag", "numerical", "numerical", "staircase"))
    if c.compiled is None:
        vc.prove("a realisable schedule is accepted", "exceeds the sample limit" in repr(c.error), repr(c.error)[:500])
        return
    c.well_formed()
    c.output()


def PORTS():
    from vlib import qgen

    return qgen.ANALOG


@unit("C04.limits", "C04", modes=("fuzz",), targets=PROGRAM, fuzz=60, shards=2, budget=60, assumptions=SIM)
def limits(vc):
    """schedules are rejected exactly when an amplitude exceeds full scale or the waveforms do not fit in memory"""
    from quantify_scheduler.operations import pulse_library as pl
    from vlib import qhw, qprop

    pc = vc.choice("port", PORTS())
    real = qhw.PORTS[pc][2] == "real"
    s = qhw.new_schedule()
    total, fits, seen, t = 0, True, set(), 0
    which = vc.choice("limit", ["memory", "amplitude"])
    for k in range(vc.length("pulses", 1, 6)):
        n = vc.choice("size", [500, 2000, 4096, 8192]) if which == "memory" else 40
        if which == "memory" and k == 1 and vc.bool("exactly"):
            n = 16384 - total + vc.choice("by", [0, 0, 4])
        seed = vc.length("seed", 0, 3)
        w = np.random.RandomState(seed).uniform(-1, 1, n + 1)
        w[0] = 1.0
        a = vc.choice("amp", [1.0, 0.5, -1.0] + ([1.001, -1.2] if which == "amplitude" and vc.bool("big") else []))
        path = "I" if real else vc.choice("path", ["I", "Q"])
        if abs(a) > 1:
            fits = False
        if (n, seed) not in seen:
            seen.add((n, seed))
            total += n
        s.add(pl.NumericalPulse(samples=w * a * (1 if path == "I" else 1j), t_samples=np.arange(n + 1) * 1e-9,
                                port=pc[0], clock=pc[1]))
        s.add(pl.IdlePulse(8e-9))
    o = vc.run(qhw.compile_, s, None, config_=qprop.config())
    if o.ok:
        vc.prove("amplitudes beyond full scale are rejected", fits)
        q = qcheck_seq(o.value, pc)
        size = sum(len(w["data"]) for w in q.sequence["waveforms"].values())
        vc.prove("uploaded waveforms fit in memory", size <= 16384, size)
    else:
        vc.prove("rejected only if it does not fit", not fits or total > 16384, (total, fits, repr(o.exc)[:300]))


def qcheck_seq(compiled, pc):
    from vlib import qcheck

    return qcheck.seq_of(compiled, pc)
