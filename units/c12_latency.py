"""C12: latency corrections shift each port-clock by its correction, and nothing else changes."""

from engine.core import Fake, unit
from vlib import qgen, qhw, zi
from vlib.qprop import Case

CORR = "quantify_scheduler.backends.corrections"
ABC = "quantify_scheduler.backends.qblox.compiler_abc"
Z = "quantify_scheduler.backends.zhinst_backend"
FLOAT = "floating point is treated as exact real arithmetic (prove mode)"


# -- which delay each port-clock gets --------------------------------------------------------------------------------------------
class Sched(Fake):
    def __init__(self, pcs):
        self.pcs = pcs

    def get_used_port_clocks(self):
        return self.pcs


def qblox_config(lat):
    from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig
    from quantify_scheduler.backends.types.qblox import QbloxHardwareOptions

    return QbloxHardwareCompilationConfig.model_construct(
        hardware_options=QbloxHardwareOptions.model_construct(latency_corrections=lat))


def legacy_config(pcs, lat):
    """an old-style configuration: port and clock anywhere in nested dictionaries and lists"""
    out = {"backend": "x", "devices": [{"channel_0": {"port": p, "clock": c, "x": 1}} for p, c in pcs[::2]]}
    for i, (p, c) in enumerate(pcs[1::2]):
        out[f"ic{i}"] = {"a": {"port": p, "clock": c}}
    if lat is not None:
        out["latency_corrections"] = lat
    return out


@unit("C12.relative", "C12", modes=("bounded", "fuzz"), targets=[f"{CORR}:determine_relative_latency_corrections"], fuzz=300,
      bounded={"len": 4})
def relative(vc):
    """delays differ by exactly the corrections (zero where none is given), none is negative and no delay is added to all"""
    pcs = [(f"q{i}:mw", f"q{i}.01") for i in range(vc.length("port-clocks", 0, 4))]
    given = {f"{p}-{c}": vc.real(f"lat{i}", -1e-6, 1e-6) for i, (p, c) in enumerate(pcs) if vc.bool(f"given{i}")}
    lat = dict(given)
    if vc.bool("unused"):
        lat["z:mw-z.01"] = vc.real("lat of an unused port-clock", -1e-6, 1e-6)
    f = vc.fn(f"{CORR}:determine_relative_latency_corrections")
    before = dict(lat)
    if vc.bool("legacy"):
        got = vc.call(f, legacy_config(pcs, lat))
    else:
        got = vc.call(f, qblox_config(lat), Sched(set(pcs) if not vc.symbolic else pcs))
    vc.prove("the configuration is not changed", list(before) == list(lat))
    for k in before:
        vc.prove("the configuration is not changed", vc.eq(lat[k], before[k]))
    keys = [f"{p}-{c}" for p, c in pcs]
    d = [got.get(k, 0) for k in keys]
    want = [given.get(k, 0) for k in keys]
    for i in range(len(keys)):
        vc.prove("no delay is negative", d[i] >= 0)
        vc.prove("delays differ by the corrections", vc.eq(d[i] - d[0], want[i] - want[0], rel=0, abs=1e-15))
    if keys:
        vc.prove("the least delay is zero", vc.Or([d[i] == 0 for i in range(len(keys))]))


# -- what the delays do to the programs -----------------------------------------------------------------------------------------
def corrections(vc, exact=True):
    out = {}
    for pc in qhw.PORTS:
        if pc[1] == "digital" or pc[0] == "t0:in":
            continue
        if vc.bool("corrected"):
            out["-".join(pc)] = vc.length("correction", -40, 40) * 1e-9 if vc.length("kind", 0, 3) else \
                vc.choice("c", [0.0, 1e-6, -1e-6, 70e-6])
    return out


@unit("C12.program", ["C12", "C02"], modes=("fuzz",), fuzz=500, shards=4,
      targets=[f"{CORR}:determine_relative_latency_corrections", f"{ABC}:SequencerCompiler.generate_qasm_program",
               f"{ABC}:SequencerCompiler._get_latency_correction_ns"])
def program(vc):
    """the programs do the same as without corrections, later by the correction (up to a common delay), in every repetition"""
    lat = corrections(vc)
    c = Case(vc, hw_options={"latency_corrections": lat}, kinds=("pulse", "acq", "phase", "offset"), big=False, depth=1, amp=0.9,
             pulse_kinds=("square", "numerical"), min_amp=0.05, max_slots=4, long_ok=False)
    if c.compiled is None:
        return
    used = {}
    for pc, (e, a, q) in c.progs.items():
        vc.prove("every instruction is within the hardware's ranges", not a.problems, (pc, a.problems[:3]))
        want = sorted(("play", t, len(w)) for t, w in e.segs)
        got = sorted(("play", t, max(len(x), len(y))) for t, x, y in a.segs)
        want += sorted(("acq", t) for t, it in e.acqs)
        got += sorted(("acq", t) for t, k, args in a.acqs)
        want += [("phase", t) for t in distinct(e.phase, 1e-2, 360)]
        got += [("phase", t) for t in distinct(a.phase, 1e-2, 360, 1e9 / 360)]
        if not e.segs and not e.acqs:
            continue
        t_first = min(t for k, t, *_ in want if k != "phase")
        g_first = min((t for k, t, *_ in got if k != "phase"), default=None)
        vc.prove("operations of a port-clock all move by the same delay", g_first is not None, pc)
        d = g_first - t_first
        if not qgen.is_real(pc):
            wp, gp = ([t for k, t, *_ in x if k == "phase"] for x in (want, got))
            vc.prove("phase changes move by the same delay", [t + d for t in wp if t > 0] == [t for t in gp if t > d],
                     (pc, d, wp[:5], gp[:5]))
        moved = [x for x in got if x[0] != "phase"]
        vc.prove("operations of a port-clock all move by the same delay",
                 [(k, t + d, *r) for k, t, *r in want if k != "phase"] == moved, (pc, d, want[:5], got[:5]))
        vc.prove("no operation starts before its time", d >= 0, (pc, d))
        total = c.base - c.header + c.reps * (c.body.dur + c.header)
        vc.prove("every repetition lasts as long as without corrections", a.tr.total - total == d,
                 (pc, a.tr.total, total, d))
        used[pc] = d
    if used:
        ref = min(used, key=lambda pc: lat.get("-".join(pc), 0))
        for pc, d in used.items():
            dif = (lat.get("-".join(pc), 0) - lat.get("-".join(ref), 0)) * 1e9
            vc.prove("port-clocks are delayed by their corrections relative to each other",
                     abs((d - used[ref]) - dif) < 0.25, (pc, ref, d, used[ref], dif))
        if all(v > -1e-12 for v in lat.values()) and any("-".join(pc) not in lat for pc in used):
            vc.prove("port-clocks without a correction are not delayed if no correction is negative",
                     all(d == 0 for pc, d in used.items() if lat.get("-".join(pc), 0) == 0), (lat, used))


def distinct(step, tol, mod, scale=1):
    out, last = [], step.v[0] / scale % mod
    for t, v in zip(step.t[1:], step.v[1:]):
        v = v / scale % mod
        if min(abs(v - last), mod - abs(v - last)) > tol:
            out.append(t)
            last = v
    return out


# -- Zurich Instruments -----------------------------------------------------------------------------------------------------------
@unit("C12.zhinst", "C12", modes=("fuzz",), fuzz=300, targets=[f"{Z}:_apply_latency_corrections"])
def zhinst(vc):
    """in the timing table of the Zurich Instruments backend, rows move by their correction and nothing else changes"""
    import pandas as pd

    zi.module()
    pcs = [("q0:mw", "q0.01"), ("q0:mw", "q0.12"), ("q1:mw", "q0.01"), ("q0:res", "q0.ro"), ("q:0", "q0.01")]
    rows = []
    for i in range(vc.length("rows", 1, 8)):
        p, c = vc.choice("pc", pcs)
        rows.append({"port": p, "clock": c, "abs_time": vc.real("t", 0, 1e-3), "duration": vc.real("d", 0, 1e-6),
                     "operation": f"op{i}", "is_acquisition": vc.bool("acq")})
    table = pd.DataFrame(rows)
    lat = {f"{p}-{c}": vc.real("lat", 0, 1e-6) for p, c in pcs if vc.bool("given")}
    got = vc.call(vc.fn(f"{Z}:_apply_latency_corrections"), timing_table=table.copy(), latency_dict=dict(lat))
    vc.prove("as many rows", len(got) == len(rows))
    for (_, g), r in zip(got.iterrows(), rows):
        vc.prove("rows move by the correction of their port-clock",
                 abs(g["abs_time"] - r["abs_time"] - lat.get(f"{r['port']}-{r['clock']}", 0)) < 1e-15, (r, dict(g)))
        vc.prove("nothing else changes", all(g[k] == r[k] for k in r if k != "abs_time"), (r, dict(g)))
