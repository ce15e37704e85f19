"""C19: whole programs for Zurich Instruments devices."""
from __future__ import annotations

import copy
import math
import warnings

from engine.core import unit
from vlib import seqc, zi

Z = "quantify_scheduler.backends.zhinst_backend"
W = "quantify_scheduler.helpers.waveforms"
A = ["stand-ins for the vendor's packages, which are not installed; pandas keeps None in columns of strings",
     "waveforms padded with zeros to the granularity of the device may overlap with the next pulse",
     "bounded: random schedules"]
RATE = {"hdawg": 2.4e9, "uhfqa": 1.8e9}
SHORT = "one clock cycle short: the product of duration and clock rate is truncated"
COMMON = 6e8  # every sample of this rate is a sample of both devices
PCS = {("q0:mw", "q0.01"): "ic_hdawg0.awg0", ("q1:mw", "q1.01"): "ic_hdawg0.awg1", ("q0:res", "q0.ro"): "ic_uhfqa0.awg0"}


def rate_of(channel):
    return RATE["hdawg" if "hdawg" in channel else "uhfqa"]


def shifts(rows):
    """rows: [(samples at the common rate * 4, is acquisition)] in order of time -> shift of each row in UHFQA samples"""
    out, total, waiting = [], 0, 0
    for start, acq in rows:  # start: seconds
        waiting += 1
        if acq:
            k = round(start * RATE["uhfqa"])
            while (k + total) % 8 or total % 3:
                total += 1
            out += [total] * waiting
            waiting = 0
    return out + [total] * waiting


@unit("C19.fixpoints", "C19", modes=("fuzz",), fuzz=400, targets=[f"{Z}:_apply_measurement_fixpoint_correction"], assumptions=A[:1])
def fixpoints(vc):
    """measurements move to sample zero; what precedes a measurement moves with it, in whatever order the rows were added"""
    import pandas as pd

    zi.module()
    rows, t = [], 0
    for i in range(vc.length("rows", 0, 9)):
        t += vc.int("gap", 1, 40)
        acq = vc.int("acq", 0, 2) == 0
        ch = "ic_uhfqa0.awg0" if acq or vc.bool("readout") else "ic_hdawg0.awg1"
        rows.append({"abs_time": t / COMMON, "hardware_channel": ch, "operation": f"op{i}", "is_acquisition": acq,
                     "duration": 1e-8})
    labels = list(range(len(rows)))
    for i in range(len(labels) - 1, 0, -1):
        j = vc.int("swap", 0, i)
        labels[i], labels[j] = labels[j], labels[i]
    want = [r["abs_time"] + s / RATE["uhfqa"] for r, s in zip(rows, shifts([(r["abs_time"], r["is_acquisition"]) for r in rows]))]
    table = pd.DataFrame(rows, index=labels, columns=["abs_time", "hardware_channel", "operation", "is_acquisition", "duration"])
    if not rows:
        return
    table["is_acquisition"] = table["is_acquisition"].astype(bool)
    table = vc.call(vc.fn(f"{Z}:_add_clock_sample_starts"), timing_table=table)
    got = vc.call(vc.fn(f"{Z}:_apply_measurement_fixpoint_correction"), timing_table=table)
    vc.prove("rows are kept in order", list(got["operation"]) == [r["operation"] for r in rows], got)
    for (_, g), r, w in zip(got.iterrows(), rows, want):
        vc.prove("shifted by the corrections of the measurements up to the next one", abs(g["abs_time"] - w) < 1e-13, (r, w, dict(g)))
        k = round(w * rate_of(r["hardware_channel"]))
        vc.prove("clock cycle and sample of the shifted time", g["clock_cycle_start"] == k // 8 and abs(g["sample_start"] - k % 8) < 1e-2,
                 (r, w, dict(g)))
        if r["is_acquisition"]:
            vc.prove("measurements start at sample zero", abs(g["sample_start"]) < 1e-2, dict(g))


@unit("C19.overlap", "C19", modes=("fuzz",), fuzz=500, targets=[f"{Z}:ensure_no_operations_overlap"], assumptions=A[:1])
def overlap(vc):
    """pulses overlapping on a channel are rejected, and so are acquisitions; a readout pulse may overlap with its acquisition"""
    import pandas as pd

    zi.module()
    rows = []
    for i in range(vc.length("rows", 1, 6)):
        ch = vc.choice("channel", ["ic_hdawg0.awg0", "ic_hdawg0.awg1", "ic_uhfqa0.awg0", None])
        rows.append({"abs_time": vc.int("t", 0, 12) * 1e-8, "hardware_channel": ch, "operation": f"op{i}",
                     "is_acquisition": ch == "ic_uhfqa0.awg0" and vc.bool("acq"), "duration": vc.int("d", 1, 4) * 1e-8})
    table = pd.DataFrame(rows)
    table["is_acquisition"] = table["is_acquisition"].astype(bool)
    table = table.sort_values("abs_time")
    bad = any(a is not b and a["hardware_channel"] is not None and a["hardware_channel"] == b["hardware_channel"] and
              a["is_acquisition"] == b["is_acquisition"] and a["abs_time"] <= b["abs_time"] < a["abs_time"] + a["duration"] - 1e-10
              for a in rows for b in rows)
    r = vc.run(vc.fn(f"{Z}:ensure_no_operations_overlap"), table)
    vc.prove("rejected exactly if operations overlap", r.ok == (not bad), (r, rows))
    vc.prove("rejected with a reason", r.ok or isinstance(r.exc, ValueError), r)


@unit("C19.grain", "C19", modes=("fuzz",), fuzz=600, targets=[f"{W}:shift_waveform", f"{W}:resize_waveform", f"{W}:get_waveform_size",
                                                             f"{W}:resize_waveforms", f"{W}:get_waveform"])
def grain(vc):
    """waveforms are moved to their sample and filled up with zeros to the granularity, samples unchanged"""
    import numpy as np

    n = vc.int("n", 0, 100)
    data = np.array([vc.real("x", -1, 1) + 1j * i for i in range(n)])
    g = vc.choice("granularity", [1, 8, 16, 24])
    r = vc.call(vc.fn(f"{W}:resize_waveform"), data.copy(), g)
    size = max(g, math.ceil(n / g) * g)
    vc.prove("multiple of the granularity", len(r) == size, (n, g, len(r)))
    vc.prove("samples unchanged, zeros after them", np.array_equal(r[:n], data) and not np.any(r[n:]), (n, g, r))
    vc.prove("size", vc.call(vc.fn(f"{W}:get_waveform_size"), data, g) == size, (n, g))
    d = {1: data.copy(), 7: data[: n // 2].copy()}
    vc.call(vc.fn(f"{W}:resize_waveforms"), d, g)
    vc.prove("all waveforms are resized", np.array_equal(d[1], r) and len(d[7]) == max(g, math.ceil((n // 2) / g) * g), (n, g))
    rate = vc.choice("rate", [2.4e9, 1.8e9, 1e9])
    length = vc.int("samples", 1, 300) - vc.choice("part of a sample", [0, 0, 0.25, 0.5, 0.9])
    wave = vc.call(vc.fn(f"{W}:get_waveform"), {"wf_func": "quantify_scheduler.waveforms.ramp", "amp": 0.5, "offset": 0.25,
                                                "duration": length / rate}, rate)
    vc.prove("samples of the whole pulse", len(wave) == math.ceil(length), (length, len(wave), rate))
    vc.prove("values at the samples", all(abs(x - 0.25 - 0.5 * i / length) < 1e-9 for i, x in enumerate(wave)), (length, wave))
    k, res = vc.int("sample", 0, 10**vc.int("magnitude", 0, 8)), vc.choice("resolution", [1, 8, 16])
    c, m = vc.call(vc.fn(f"{W}:shift_waveform"), data.copy(), k / rate, rate, res)
    vc.prove("clock cycle of the start", c == k // res, (k, res, c))
    vc.prove("zeros up to the sample of the start", len(m) == n + k % res and not np.any(m[: k % res]) and
             np.array_equal(m[k % res:], data), (k, res, m))


def config(vc, modulation):
    ch = {}
    mod = {pc: vc.choice("interm", [0.0, 1e8, -1e8, 5e7]) if modulation else None for pc in PCS}

    def channel(pc, mode):
        m = {"type": "premod", "interm_freq": mod[pc]} if modulation else {"type": "none"}
        return {"port": pc[0], "clock": pc[1], "mode": mode, "modulation": m, "gain1": 1.0, "gain2": 1.0}

    markers = vc.choice("markers", [["AWG_MARKER1", "AWG_MARKER2"], ["AWG_MARKER1"], []])
    pcs = list(PCS)
    cfg = {"backend": f"{Z}.compile_backend", "local_oscillators": [], "devices": [
        {"name": "ic_hdawg0", "type": "HDAWG8", "clock_select": 0, "ref": "int", "channelgrouping": 0,
         "channel_0": {**channel(pcs[0], "complex"), "markers": markers, "trigger": None},
         "channel_1": {**channel(pcs[1], "complex"), "markers": markers, "trigger": vc.choice("trigger", [None, None, 1])}},
        {"name": "ic_uhfqa0", "type": "UHFQA", "ref": "ext",
         "channel_0": {**channel(pcs[2], "real"), "trigger": 2, "markers": []}}]}
    del ch
    lat = {}
    if vc.bool("latencies"):
        lat = {f"{p}-{c}": vc.choice("latency", [0, 57, -57, 6, 12]) / COMMON for p, c in pcs}
        cfg["latency_corrections"] = dict(lat)
    low = min(lat.values(), default=0)
    return cfg, mod, {pc: lat.get(f"{pc[0]}-{pc[1]}", 0) - (low if lat else 0) for pc in pcs}


def pulse(vc, pc):
    """-> operation, samples of it at a rate"""
    import numpy as np

    from quantify_scheduler.operations.pulse_library import DRAGPulse, RampPulse, SquarePulse
    from quantify_scheduler import waveforms

    dur = vc.choice("duration", [1, 2, 3, 5, 10]) * 1e-8
    amp = vc.choice("amp", [0.1, 0.25, 0.5])
    kind = vc.choice("kind", ["square", "ramp", "drag"])
    if kind == "drag":
        d = vc.choice("D_amp", [0, 0.05])
        op = DRAGPulse(G_amp=amp, D_amp=d, phase=0, duration=dur, port=pc[0], clock=pc[1])
        return op, lambda t: waveforms.drag(t, G_amp=amp, D_amp=d, duration=dur, nr_sigma=4, phase=0, sigma=None)
    if kind == "ramp":
        return RampPulse(amp=amp, duration=dur, port=pc[0], clock=pc[1]), lambda t: amp * t / dur
    return SquarePulse(amp=amp, duration=dur, port=pc[0], clock=pc[1]), lambda t: amp * np.ones(len(t))


@unit("C19.programs", "C19", modes=("fuzz",), fuzz=1500, shards=2, budget=100, assumptions=A,
      targets=[f"{Z}:compile_backend", f"{Z}:construct_waveform_table", f"{Z}:_compile_for_hdawg", f"{Z}:_compile_for_uhfqa",
               f"{Z}:_get_instruction_list", f"{Z}:_add_waveform_ids", f"{Z}:_add_channel_information",
               f"{Z}:apply_waveform_corrections", f"{W}:get_waveform"])
def programs(vc):
    """the samples the devices play, and the start of their acquisitions, are those of the schedule"""
    import numpy as np

    zi.module()
    from quantify_scheduler import Schedule
    from quantify_scheduler.compilation import _determine_absolute_timing
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    from quantify_scheduler.operations.pulse_library import IdlePulse
    from quantify_scheduler.resources import ClockResource

    cfg, mod, lat = config(vc, vc.bool("modulation"))
    reps = vc.int("repetitions", 1, 20)
    s = Schedule("s", repetitions=reps)
    for pc in PCS:
        s.add_resource(ClockResource(pc[1], 5e9))
    todo, grid = [], vc.choice("grid", [6, 6, 24, 3])  # 600 MHz samples: 10 ns, 40 ns, 5 ns
    bin_mode = vc.choice("bin mode", [BinMode.AVERAGE, BinMode.APPEND])
    acq_dur = vc.choice("acq duration", [10, 20, 100]) * 1e-8
    for pc in PCS:
        t = vc.int("first", 0, 5) * grid
        for i in range(vc.length("operations", 0, 3)):
            op, f = (op, f) if i and vc.bool("same pulse") else pulse(vc, pc)
            todo.append((t, pc, op, f))
            if PCS[pc].startswith("ic_uhfqa"):
                t += vc.int("acq delay", 0, 6) * 24
                todo.append((t, pc, SSBIntegrationComplex(port=pc[0], clock=pc[1], duration=acq_dur, acq_channel=0, acq_index=i,
                                                          bin_mode=bin_mode), None))
                t += round(acq_dur * COMMON)
            else:
                t += round(op.duration * COMMON)
            t += vc.choice("gap", [-6, 0, 1, 6, 12, 24, 60, 300] if vc.int("risky", 0, 5) == 0 else [6, 12, 24, 60, 300]) * grid // 6
            t = max(t, 0)
    if not any(f is None for _, _, _, f in todo):
        vc.assume(False)
    anchor = s.add(IdlePulse(1e-8))
    end = max(t + round(op.duration * COMMON) for t, _, op, _ in todo) + vc.int("rest", 0, 3) * 60
    order = list(range(len(todo)))
    if vc.bool("shuffle"):
        for i in range(len(order) - 1, 0, -1):
            j = vc.int("swap", 0, i)
            order[i], order[j] = order[j], order[i]
    for i in order:
        t, _, op, _ = todo[i]
        s.add(op, rel_time=t / COMMON, ref_op=anchor, ref_pt="start")
    s.add(IdlePulse(1e-8), rel_time=end / COMMON, ref_op=anchor, ref_pt="start")
    # expected: rows in order of time, acquisitions not at the time of another operation
    rows = sorted([(t / COMMON + lat[pc], pc, op, f) for t, pc, op, f in todo] +
                  [(0.0, None, None, 0), (end / COMMON, None, None, 0)], key=lambda r: r[0])
    for r in rows:
        if r[3] is None:
            vc.assume(not any(q is not r and abs(q[0] - r[0]) < 1e-10 for q in rows))
    moved = [(t + k / RATE["uhfqa"], pc, op, f) for (t, pc, op, f), k in zip(rows, shifts([(r[0], r[3] is None) for r in rows]))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = vc.run(lambda: vc.fn(f"{Z}:compile_backend")(_determine_absolute_timing(s), hardware_cfg=copy.deepcopy(cfg)))
    total = max(t + (op.duration if op is not None else 1e-8) for t, _, op, _ in moved)
    why = reasons(cfg, moved, total)
    vc.assume("border" not in why)
    if not r.ok:
        vc.prove("rejected with a reason", isinstance(r.exc, ValueError) and bool(why), (repr(r.exc), why))
        return
    vc.prove("rejected if the devices cannot do it", not why, (why, moved))
    if why:
        return
    vc.cover("accepted")
    short = False
    for ch, dev in ((0, "ic_hdawg0"), (1, "ic_hdawg0"), (0, "ic_uhfqa0")):
        short |= check_channel(vc, r.value.compiled_instructions[dev], dev, ch, [m for m in moved if m[1] and PCS[m[1]] == f"{dev}.awg{ch}"],
                               mod, total, reps, cfg)
    check_acquisitions(vc, r.value.compiled_instructions["ic_uhfqa0"], [m for m in moved if m[3] is None], mod, acq_dur, reps, bin_mode)
    vc.prove("an iteration lasts as long as the schedule, whole cycles", not short, SHORT)


def reasons(cfg, moved, total):
    """why the devices cannot run it"""
    out = []
    for ch in PCS.values():
        ev = [(t, op, f) for t, pc, op, f in moved if pc and PCS[pc] == ch]
        for acq in (False, True):
            xs = [(t, op) for t, op, f in ev if (f is None) == acq]
            out += [("overlap", ch, t) for (t0, o0), (t, _) in zip(xs, xs[1:]) if t < t0 + o0.duration - 1e-10]
        dev = "HDAWG" if "hdawg" in ch else "UHFQA"
        c = cfg["devices"][0][f"channel_{ch[-1]}"] if dev == "HDAWG" else None
        clock = 0
        if dev == "HDAWG":
            clock = seqc.trigger_cost("+".join(c["markers"])) if c["markers"] else 0 if c["trigger"] is not None else 2
        for t, op, f in ev:
            k = round(t * rate_of(ch)) // 8
            if k - clock < (3 if dev == "HDAWG" else 0):
                out.append(("too close", ch, t))
            clock = k + (7 if f is None else 0)
        if dev == "HDAWG" and c["trigger"] is None and int(total * 3e8 + 1e-3) - clock - 1 < 3:
            out.append(("no time after the last pulse", ch))
        elif dev == "HDAWG" and c["trigger"] is None and int(total * 3e8 + 1e-3) - clock == 4:
            out.append("border")  # the total may be shorter by a cycle, see the last obligation
    return out


def settings(dc):
    b = dc.settings_builder
    return {x.node: x.value for x in b._daq_settings}, {i: x.value for n, (i, x) in b._awg_settings if n == "compiler/sourcestring"}


def check_channel(vc, dc, dev, ch, events, mod, total, reps, cfg):
    import numpy as np

    daq, text = settings(dc)
    device = "HDAWG" if "hdawg" in dev else "UHFQA"
    try:
        n, got, clocks, variables, header = seqc.run(text[ch], device)
    except seqc.Rejected as e:
        vc.prove("the sequencer accepts the program", False, (e, text[ch]))
        return False
    vc.prove("repetitions", n == reps, (n, reps))
    rate = RATE["hdawg" if device == "HDAWG" else "uhfqa"]
    size = round((total + 1e-6) * rate)
    played, expect, acqs = np.zeros(size, complex), np.zeros(size, complex), []
    for name, arg, clock in got:
        if name == "startQA":
            acqs.append(clock * 8)
        if name in ("executeTableEntry", "playWave"):
            i = int(arg.strip("w"))
            if device == "HDAWG":
                import json

                entry = next(e for e in json.loads(daq[f"awgs/{ch}/commandtable/data"])["table"] if e["index"] == i)
                i = entry["waveform"]["index"]
            d = daq[f"awgs/{ch}/waveform/waves/{i}"]
            w = d[0::2] + 1j * d[1::2]
            vc.prove("waveforms are multiples of the granularity", len(w) % 16 == 0, len(w))
            if device == "HDAWG":
                vc.prove("length of the waveform", entry["waveform"]["length"] == len(w) and variables[f"w{i}"] == f"placeholder({len(w)})",
                         (entry, len(w), variables))
            played[clock * 8:clock * 8 + len(w)] += w
    for t, pc, op, f in events:
        if f is None:
            continue
        k = round(t * rate)
        tt = np.arange(math.ceil(round(op.duration * rate, 6))) / rate
        w = f(tt) * (np.exp(2j * np.pi * mod[pc] * tt) if mod[pc] is not None else 1)
        expect[k:k + len(w)] += w
    bad = np.flatnonzero(abs(played - expect) > 1e-6)
    vc.prove("the samples of the schedule are played", len(bad) == 0,
             (dev, ch, bad[:3], played[bad[:3]], expect[bad[:3]], [(e[0], e[2]) for e in events], text[ch]))
    vc.prove("acquisitions start at their sample", acqs == [round(t * rate) for t, _, _, f in events if f is None], (acqs, events))
    if device == "HDAWG" and cfg["devices"][0][f"channel_{ch}"]["trigger"] is None:
        want = int(total * 3e8 + 1e-3)
        if clocks != want and clocks == want - 1 and abs(total * 3e8 - want) < 1e-3:
            return True
        vc.prove("an iteration lasts as long as the schedule", clocks == want, (clocks, want, text[ch]))
    return False


def check_acquisitions(vc, dc, acqs, mod, dur, reps, bin_mode):
    import numpy as np

    from quantify_scheduler.enums import BinMode

    daq, _ = settings(dc)
    n = round(dur * RATE["uhfqa"])
    vc.prove("integration length", daq["qas/0/integration/length"] == n, daq["qas/0/integration/length"])
    append = bin_mode == BinMode.APPEND
    vc.prove("one result per acquisition and repetition", daq["qas/0/result/length"] == len(acqs) * (reps if append else 1) and
             daq["qas/0/result/averages"] == (1 if append else reps), (daq["qas/0/result/length"], daq["qas/0/result/averages"]))
    tt = np.arange(n) / RATE["uhfqa"]
    f = mod[("q0:res", "q0.ro")]
    w = np.zeros(4096, complex)
    w[:n] = (1 + 1j) * (np.exp(-2j * np.pi * f * tt) if f is not None else np.ones(n))
    for node, x in (("0/real", w.real), ("0/imag", w.imag), ("1/real", w.imag), ("1/imag", -w.real)):
        got = daq[f"qas/0/integration/weights/{node}"]
        vc.prove("integration weights", len(got) == 4096 and np.max(abs(got - x)) < 1e-6, (node, f))
