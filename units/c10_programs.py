"""C10: conditional sections in compiled programs, executed for both outcomes."""
from engine.core import unit
from vlib import qhw
from vlib.qprop import Case

T = ["quantify_scheduler.backends.qblox.qasm_program:QASMProgram.conditional",
     "quantify_scheduler.backends.qblox_backend:compile_conditional_playback",
     "quantify_scheduler.backends.qblox_backend:_set_conditional_info_map",
     "quantify_scheduler.backends.qblox_backend:_insert_latch_reset"]
A = ["Q1ASM interpreter vlib/q1sim.py", "bounded: random schedules"]


@unit("C10.programs", "C10", modes=("fuzz",), targets=T, fuzz=2500, shards=5, budget=120, assumptions=A)
def programs(vc):
    """both outcomes of every section take the time the schedule reserves; the body runs only when taken"""
    c = Case(vc, amp=0.5, long_ok=False, min_amp=0.02, loopgap=vc.choice("loop gap", [0, 8]), max_slots=4,
             shuffle=vc.bool("shuffle"), jitter=vc.bool("jitter"), kinds=("pulse", "phase", "freq", "cond", "cond", "offset"))
    c.well_formed()
    c.total("program time is the same whatever the outcome")
    c.plays()
    c.offsets()
    c.acquisitions()
    c.nco()
    links(c)


def links(c):
    """every tested mask is the trigger address of the acquisition with the section's label, reset just before"""
    vc = c.vc
    addr = {}
    for pc, (_e, a, q) in c.progs.items():
        if getattr(q, "thresholded_acq_trigger_write_en", None):
            addr["L" + pc[0]] = q.thresholded_acq_trigger_write_address
    vc.prove("labels have different addresses", len(set(addr.values())) == len(addr), addr)

    def conds(body):
        for it in body.items:
            if it.kind == "cond":
                yield it
            elif it.kind == "loop":
                yield from conds(it.body)

    labels = [it.label for it in conds(c.body)]
    for pc, (_e, a, q) in c.progs.items():
        for _t, mask, op, _els in a.tr.conds:
            vc.prove("tests one trigger that some acquisition sends",
                     any(mask == 1 << (x - 1) for x in addr.values()), (pc, mask, addr))
            for x in addr.values():
                if mask == 1 << (x - 1):
                    vc.prove("the sequencer listens to the trigger it tests", x in q.thresholded_acq_trigger_read_settings,
                             (pc, x))
        ev = [e for e in a.tr.events if e.kind == "latch_rst"]
        if a.tr.conds:
            vc.prove("counters are reset before the section is tested",
                     ev and all(any(e.t <= t for e in ev) for t, *_ in a.tr.conds), pc)
    vc.prove("every label used is sent", set(labels) <= set(addr), (labels, addr))


@unit("C10.labels", "C10", modes=("fuzz",), targets=T, fuzz=400, budget=100, assumptions=A)
def labels(vc):
    """every section tests the outcome of the acquisition with its own label, whatever the order of adding"""
    import random

    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import acquisition_library as al
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from vlib import q1sim, qcheck
    from vlib.qprop import config

    qcheck.calibrate()
    s = qhw.new_schedule(repetitions=vc.length("reps", 1, 2))
    acq = {"A": ("q0:res", "q0.ro"), "B": ("b0:res", "b0.ro"), "T": ("d4:in", "digital")}
    ports = [("q0:mw", "q0.01"), ("q1:mw", "q1.01"), ("c0:mw", "c0.if"), ("q0:fl", "cl0.baseband"),
             ("q1:fl", "cl0.baseband")]
    weighted = vc.bool("weighted")
    cond_tt = vc.choice("condition", ["less_than", "greater_than_equal_to"])
    plan, used, t = [], {}, 0
    wrap = vc.bool("in a nested schedule")
    for r in range(vc.length("rounds", 1, 3)):
        lab = vc.choice("label", list(acq))
        port, clock = acq[lab]
        if lab == "T":
            op = al.ThresholdedTriggerCount(port=port, clock=clock, duration=100e-9, threshold=3, bin_mode="append",
                                            acq_channel="t", feedback_trigger_label="T",
                                            feedback_trigger_condition=cond_tt)
        elif weighted:
            op = al.WeightedThresholdedAcquisition(
                port=port, clock=clock, weights_a=[0.5] * 100, weights_b=[0.1] * 100, weights_sampling_rate=1e9,
                acq_channel="c" + lab, bin_mode="append", feedback_trigger_label=lab, acq_rotation=10, acq_threshold=.1)
        else:
            op = al.ThresholdedAcquisition(port=port, clock=clock, duration=100e-9, acq_channel="c" + lab,
                                           bin_mode="append", feedback_trigger_label=lab, acq_rotation=10,
                                           acq_threshold=.1)
        out = vc.choice("port", ports)
        b = Schedule("b")
        n = vc.length("pulse", 5, 20) * 4
        b.add(pl.SquarePulse(amp=0.25, duration=n * 1e-9, port=out[0], clock=out[1]))
        body = LoopOperation(body=b, repetitions=vc.length("body reps", 1, 3)) if vc.bool("loop in section") else b
        if body is not b:
            b2 = Schedule("b2")
            b2.add(body)
            body = b2
        plan.append((t, op))
        plan.append((t + 600, ConditionalOperation(body=body, qubit_name=lab, hardware_buffer_time=4e-9)))
        used.setdefault(out, []).append((t + 600, lab, n))
        t += 2000
    random.Random(vc.length("order", 0, 10**6)).shuffle(plan)
    target = Schedule("inner") if wrap else s
    anchor = target.add(pl.IdlePulse(t * 1e-9))
    for tt, op in plan:
        target.add(op, ref_op=anchor, ref_pt="start", rel_time=tt * 1e-9)
    if wrap:
        s.add(target)
        if vc.bool("twice"):
            s.add(target)
    o = vc.run(qhw.compile_, s, None, config_=config())
    vc.prove("a realisable schedule is accepted", o.ok, repr(o.exc)[:500])
    base, header = qcheck.calibrate()
    writes = {}
    for lab, pc in acq.items():
        q = qcheck.seq_of(o.value, pc)
        if q is None:
            continue
        if lab == "T":
            w = q.sequence["program"]
        elif any(lab == x[1] for v in used.values() for x in v):
            vc.prove("the acquiring sequencer sends its trigger", q.thresholded_acq_trigger_write_en, lab)
            writes[lab] = q.thresholded_acq_trigger_write_address
    vc.prove("labels have different addresses", len(set(writes.values())) == len(writes), writes)
    for out, sections in used.items():
        q = qcheck.seq_of(o.value, out)
        tr = q1sim.run(q.sequence["program"])
        first = [c for c in tr.conds if c[2] % 2 == 0]
        per = len(first) // len(sections)
        vc.prove("one test per section", per >= 1 and len(first) == per * len(sections), (len(first), len(sections)))
        for i, (t, mask, op, els) in enumerate(first):
            ts, lab, n = sections[i % len(sections)]
            got = [a for a in q.thresholded_acq_trigger_read_settings if mask == 1 << (a - 1)]
            vc.prove("the sequencer listens to the trigger it tests", len(got) == 1, (out, mask))
            if lab in writes:
                vc.prove("the section tests its own label", got[0] == writes[lab], (out, i, lab, mask, writes))
            else:
                vc.prove("the section tests its own label", got[0] not in writes.values(), (out, i, lab, mask, writes))
                rs = q.thresholded_acq_trigger_read_settings[got[0]]
                vc.prove("trigger counts of a TTL module are compared with one trigger",
                         rs.thresholded_acq_trigger_count == 1 and rs.thresholded_acq_trigger_invert is False, rs)
            resets = [e.t for e in tr.events if e.kind == "latch_rst" and e.t <= t]
            vc.prove("counters are reset after the previous section and before this one",
                     resets and (i == 0 or max(resets) > first[i - 1][0]), (out, i, t, resets[-3:]))
        skipped = q1sim.run(q.sequence["program"], lambda m, op: op % 2 == 1)
        vc.prove("nothing is played when no trigger came", not any(e.kind == "play" for e in skipped.events))
        vc.prove("both outcomes take the same time", skipped.total == tr.total, (tr.total, skipped.total))


# -- trigger addresses ------------------------------------------------------------------------------------------------------------
_MANY = {}


def many_inputs():
    """16 TTL inputs (on two QTM modules) and one output"""
    if not _MANY:
        hw = qhw.config()
        mods = hw["hardware_description"]["cluster0"]["modules"]
        mods.update({"7": {"instrument_type": "QTM"}, "8": {"instrument_type": "QTM"}})
        for i in range(16):
            hw["connectivity"]["graph"].append([f"cluster0.module{7 + i // 8}.digital_input_{i % 8}", f"x{i}:in"])
        _MANY["cfg"] = qhw.compiler_config(hw)
    return _MANY["cfg"]


@unit("C10.addresses", "C10", modes=("fuzz",), targets=T, fuzz=240, shards=3, budget=100, assumptions=A)
def addresses(vc):
    """any number of labels: each section tests the address that the acquisition with its label sends to, up to the 15
    addresses of the cluster"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import acquisition_library as al
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation
    from vlib import q1sim, qcheck

    s = qhw.new_schedule()
    sections, sends, n = [], {}, 0
    inputs = vc.length("inputs", 1, 16)
    step = vc.choice("order of the inputs", [1, 3, 5, 15])
    for i in range(inputs):
        port = f"x{i * step % 16}:in"
        kw = dict(port=port, clock="digital", duration=100e-9, bin_mode="append", acq_channel=f"c{i}")
        if vc.length("dual", 0, 4) == 0:
            kinds = [k for k in ("low", "mid", "high", "invalid") if vc.bool(k)]
            labs = {k: f"L{(n + j) * 7 % 64}" for j, k in enumerate(kinds)}
            op = al.DualThresholdedTriggerCount(threshold_low=2, threshold_high=5,
                                                **{f"label_{k}": v for k, v in labs.items()}, **kw)
        else:
            cond = vc.choice("condition", ["less_than", "greater_than_equal_to"])
            labs = {"low" if cond == "less_than" else "high": f"L{n * 7 % 64}"}
            op = al.ThresholdedTriggerCount(threshold=3, feedback_trigger_condition=cond,
                                            feedback_trigger_label=f"L{n * 7 % 64}", **kw)
        n += len(labs)
        s.add(op)
        s.add(pl.IdlePulse(600e-9))
        for k in vc.choice("order", [1, -1]) == 1 and labs or reversed(labs):
            b = Schedule("b")
            b.add(pl.SquarePulse(amp=0.25, duration=40e-9, port="q0:mw", clock="q0.01"))
            s.add(ConditionalOperation(body=b, qubit_name=labs[k], hardware_buffer_time=4e-9))
            s.add(pl.IdlePulse(300e-9))
            sections.append(labs[k])
            sends[labs[k]] = (i * step % 16, k)
    o = vc.run(qhw.compile_, s, None, config_=many_inputs())
    if n > 15:
        vc.prove("more labels than addresses are rejected", isinstance(o.exc, ValueError), repr(o.exc or "accepted")[:300])
        return
    vc.prove("a realisable schedule is accepted", o.ok, repr(o.exc)[:500])
    addr, mods = {}, o.value.compiled_instructions["cluster0"]
    for lab, (inp, kind) in sends.items():
        q = next(q for q in mods[f"cluster0_module{7 + inp // 8}"]["sequencers"].values()
                 if q.channel_name == f"digital_input_{inp % 8}")
        vc.prove("the acquiring sequencer sends its trigger", q.thresholded_acq_trigger_write_en, lab)
        addr[lab] = getattr(q, f"thresholded_acq_trigger_write_address_{kind}")
    vc.prove("every label has an address of the cluster", all(1 <= a <= 15 for a in addr.values()), addr)
    vc.prove("labels have different addresses", len(set(addr.values())) == len(addr), addr)
    if not sections:
        return
    q = qcheck.seq_of(o.value, ("q0:mw", "q0.01"))
    tests = [c for c in q1sim.run(q.sequence["program"]).conds if c[2] % 2 == 0]
    vc.prove("one test per section", len(tests) == len(sections), (len(tests), len(sections)))
    for (_t, mask, _op, _els), lab in zip(tests, sections):
        vc.prove("the section tests its own label", mask == 1 << (addr[lab] - 1), (lab, mask, addr))
        vc.prove("the sequencer listens to the trigger it tests", addr[lab] in q.thresholded_acq_trigger_read_settings, lab)


@unit("C10.mask", "C10", targets=["quantify_scheduler.backends.qblox.conditional:FeedbackTriggerCondition.__post_init__",
                                  "quantify_scheduler.backends.qblox.conditional:FeedbackTriggerOperator.__invert__"], fuzz=100)
def mask(vc):
    """the mask selects exactly the given addresses; inverting an operator negates its outcome"""
    cond = "quantify_scheduler.backends.qblox.conditional"
    ops = vc.fn(f"{cond}:FeedbackTriggerOperator")
    op = vc.choice("operator", list(ops))
    sent = [vc.bool(f"sent{i}") for i in range(3)]
    addrs = vc.choice("addresses", [[a] for a in range(1, 16)] + [[1, 15], [9, 2], [15, 8, 7]])
    got = vc.call(vc.fn(f"{cond}:FeedbackTriggerCondition"), True, op, addrs)
    vc.prove("the mask selects exactly the addresses", [a for a in range(0, 20) if got.mask >> a & 1] == sorted(a - 1 for a in addrs),
             (addrs, got.mask))
    c = sum(sent) if not vc.symbolic else sum((vc.ite(x, 1, 0) for x in sent), 0)

    def holds(o):
        return {"OR": c >= 1, "NOR": c == 0, "AND": c == 3, "NAND": c < 3, "XOR": c % 2 == 1, "XNOR": c % 2 == 0}[o.name]

    inv = vc.call(lambda: ~op)
    vc.prove("inverting negates", vc.eq(vc.ite(holds(inv), 1, 0), vc.ite(holds(op), 0, 1)), (op, inv))
