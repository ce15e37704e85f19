"""C07: acquisition indices of a schedule are complete, unique and ordered."""
from __future__ import annotations

import math
import warnings

from engine import sym as S
from engine.core import unit
from engine.rt import Ghost, LoopSpec

M = "quantify_scheduler.helpers.generate_acq_channels_data"
TARGETS = [M, "quantify_scheduler.backends.qblox_backend", "quantify_scheduler.backends.qblox.helpers",
           "quantify_scheduler.helpers.schedule"]

COMBOS = [("SSBIntegrationComplex", "append"), ("SSBIntegrationComplex", "average"), ("ThresholdedAcquisition", "append"),
          ("ThresholdedAcquisition", "average"), ("Trace", "average"), ("Trace", "first"), ("TriggerCount", "append"),
          ("TriggerCount", "distribution"), ("TriggerCount", "sum"), ("Timetag", "append"), ("Timetag", "average"),
          ("TimetagTrace", "append"), ("ThresholdedTriggerCount", "append"), ("ThresholdedTriggerCount", "sum")]


class Conflict(Exception):
    pass


def make(vc, al, state):
    """an acquisition operation with one or two acquisitions, and its description"""
    infos, op = [], None
    for j in range(vc.choice("acqs", [1, 1, 1, 2])):
        ch = vc.choice("channel", [0, 1, "1", "x", ("a", 2)])
        if ch in state["proto"] and vc.length("conflict", 0, 19):
            proto, bm = state["proto"][ch]
            if proto == "Trace" and vc.length("two traces", 0, 9):
                continue
        else:
            proto, bm = vc.choice("combo", COMBOS)
        state["proto"].setdefault(ch, (proto, bm))
        coords = {"amp": vc.length("coord", 0, 9)} if vc.bool("coords") else (None if vc.bool("no coords") else {})
        explicit = None
        if state["explicit"] and proto != "Trace" and bm != "distribution" and vc.bool("explicit"):
            n = state["count"].get(ch, 0)
            explicit = n if vc.length("gap", 0, 9) else vc.length("acq_index", 0, 5)
            state["count"][ch] = n + 1
        kw = dict(port="q0:res", clock="q0.ro", acq_channel=ch, coords=coords, acq_index=explicit, bin_mode=bm,
                  duration=100e-9)
        if proto == "ThresholdedTriggerCount":
            kw["threshold"] = 3
        o = getattr(al, proto)(**kw)
        infos.append((ch, proto, bm, coords or {}, explicit))
        if op is None:
            op = o
        else:
            op.data["acquisition_info"] = op.data["acquisition_info"] + o.data["acquisition_info"]
            op._update()
    return op, infos


def grow(vc, depth, state):
    """a random schedule and [(time, label, node)]; node: ("acq", infos) | ("schedule", [...]) | ("loop", reps, node) | ("cond", node)"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import acquisition_library as al
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.pulse_library import IdlePulse

    s = Schedule(f"s{depth}")
    nodes = []
    anchor = s.add(IdlePulse(1e-3))
    for i in range(vc.length("size", 1, 5)):
        kind = vc.choice("kind", ["acq", "acq", "acq", "idle"] + (["schedule", "loop", "cond"] if depth else []))
        if kind == "acq":
            op, infos = make(vc, al, state)
            if op is None:
                continue
            node = ("acq", infos)
        elif kind == "idle":
            op, node = IdlePulse(1e-8), None
        else:
            if vc.bool("plain body"):
                op, infos = make(vc, al, state)
                if op is None:
                    continue
                node = ("acq", infos)
            else:
                op, inner = grow(vc, depth - 1, state)
                node = ("schedule", inner)
            if kind == "loop":
                reps = vc.length("reps", 1, 4)
                op, node = LoopOperation(body=op, repetitions=reps), ("loop", reps, node)
            elif kind == "cond":
                op, node = ConditionalOperation(body=op, qubit_name="q0"), ("cond", node)
        t = vc.length("time", 0, 10**4) + i * 1e-3  # (distinct times; any order)
        label = f"{state['n']}" if vc.bool("own label") else None
        state["n"] += 1
        sch = s.add(op, ref_op=anchor, ref_pt="start", rel_time=t, label=label)
        if node is not None:
            nodes.append((t, sch["name"], node))
    return s, nodes


def reference(nodes):
    """(channels, indices) as documented, or Conflict"""
    channels, indices = {}, {}

    def acq(infos, label, loops, explicit):
        for num, (ch, proto, bm, coords, index) in enumerate(infos):
            if explicit is (index is None):
                continue
            c = channels.get(ch)
            if c is not None and (c["proto"], c["bm"]) != (proto, bm):
                raise Conflict("protocol or bin mode")
            if bm == "distribution":
                channels.setdefault(ch, {"proto": proto, "bm": bm, "coords": []})["coords"].append(dict(coords))
                continue
            if proto == "Trace":
                if c is not None:
                    raise Conflict("two traces")
                channels[ch] = {"proto": proto, "bm": bm, "coords": dict(coords)}
                continue
            c = channels.setdefault(ch, {"proto": proto, "bm": bm, "coords": []})
            first = len(c["coords"])
            if bm == "append":
                full = dict(coords)
                if index is not None:
                    full = {f"acq_index_legacy_{ch}": index, **full}
                n = math.prod(loops)
                c["coords"] += [{f"loop_repetition_{ch}": k, **full} if loops else dict(full) for k in range(n)]
                indices[label, num] = list(range(first, first + n))
            else:
                if index is not None and index != first:
                    raise Conflict("explicit index")
                c["coords"].append(dict(coords))
                indices[label, num] = first

    def walk(node, label, loops, explicit):
        if node is None:
            return
        if node[0] == "schedule":
            for _t, name, n in sorted(node[1], key=lambda x: x[0]):
                walk(n, (*label, name), loops, explicit)
        elif node[0] == "loop":
            walk(node[2], (*label, None), [*loops, node[1]], explicit)
        elif node[0] == "cond":
            walk(node[1], (*label, None), loops, explicit)
        else:
            acq(node[1], label, loops, explicit)

    for explicit in (True, False):
        walk(("schedule", nodes), (), [], explicit)
    return channels, indices


@unit("C07.tree", "C07", modes=("fuzz",), fuzz=1500, shards=4, budget=110, targets=TARGETS,
      assumptions=["bounded: random schedules"])
def tree(vc):
    """indices and coordinates of random nested schedules equal the documented numbering; conflicts are rejected"""
    from quantify_scheduler.compilation import _determine_absolute_timing
    from quantify_scheduler.enums import BinMode

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s, nodes = grow(vc, 3, {"proto": {}, "n": 0, "count": {}, "explicit": vc.bool("legacy")})
        s = _determine_absolute_timing(s)
        o = vc.run(vc.fn(f"{M}:generate_acq_channels_data"), s)
    try:
        channels, indices = reference(nodes)
    except Conflict as e:
        vc.prove("incompatible uses of a channel are rejected", not o.ok and isinstance(o.exc, ValueError), (repr(e), repr(o)))
        return
    vc.prove("compatible uses are accepted", o.ok, repr(o.exc))
    got, got_idx = o.value
    vc.prove("every channel is reported", set(got) == set(channels) and len({type(k) for k in got} ^ {type(k) for k in channels}) == 0,
             (set(got), set(channels)))
    for ch, c in channels.items():
        g = got[ch]
        vc.prove("protocol and bin mode of the channel", (g.protocol, g.bin_mode) == (c["proto"], BinMode(c["bm"])), (g, c))
        if c["bm"] == "distribution":
            vc.prove("coordinates belong to the acquisition", g.coords in c["coords"], (ch, g.coords, c["coords"]))
        else:
            vc.prove("coordinates belong to the acquisition", g.coords == c["coords"], (ch, g.coords, c["coords"]))
    vc.prove("indices are those of the documented order", got_idx == indices,
             ({k: v for k, v in got_idx.items() if indices.get(k) != v}, {k: v for k, v in indices.items() if got_idx.get(k) != v}))
    # the same, without the reference
    used = {}
    for (label, num), v in got_idx.items():
        node = nodes
        used.setdefault(channel_of(nodes, label, num), []).extend(v if isinstance(v, list) else [v])
    for ch, v in used.items():
        vc.prove("indices of a channel are unique and consecutive from zero", sorted(v) == list(range(len(v))) and
                 len(v) == len(got[ch].coords), (ch, sorted(v)))
    dims = [g.acq_index_dim_name for g in got.values()]
    vc.prove("dimension names", all(d == "acq_index_" + str(ch) for d, ch in zip(dims, got)), dims)


def channel_of(nodes, label, num):
    node = ("schedule", nodes)
    for part in label:
        node = next(n for _t, name, n in node[1] if name == part) if node[0] == "schedule" else node[-1]
    return node[1][num][0]


class Coords(Ghost):
    """the coordinates reported so far for a channel: any number of them"""

    def __init__(self, n):
        self.n, self.new = n, []

    @property
    def __class__(self):
        return list

    def __vc_len__(self):
        return self.n

    def append(self, c):
        self.new.append((self.n, 1, lambda j: c))
        self.n = self.n + 1

    def extend(self, seq):
        if isinstance(seq, list) and not hasattr(seq, "at"):
            for c in seq:
                self.append(c)
            return
        self.new.append((self.n, seq.n, seq.at))
        self.n = self.n + seq.n

    def __iadd__(self, seq):
        self.extend(seq)
        return self


@unit("C07.append", "C07", modes=("prove",), targets=[f"{M}:_generate_acq_channels_data_binned_append"],
      assumptions=["_prod is the product (C07.prod)"])
def append(vc):
    """an appending acquisition takes the next indices, one per iteration of the loops around it, for any loops"""
    p = S.cur()
    p.lazy_ranges = True
    L, P = vc.int("before", 0), vc.int("iterations", 1)
    loops = vc.seq("loops", lambda i, name: vc.int(name, 1), spec=LoopSpec(lambda st, k: []))
    vc.stub(f"{M}:_prod", lambda xs: P)
    ch, key, label = "ch", ("label", None), {("old", 0): 5}
    user = {"amp": 0.5} if bool(vc.bool("user coords")) else {}
    index = 3 if bool(vc.bool("explicit")) else None
    data = vc.fn("quantify_scheduler.schedules.schedule:AcquisitionChannelData")(
        acq_index_dim_name="acq_index_ch", protocol="SSBIntegrationComplex", bin_mode="append", coords=[])
    data.coords = coords = Coords(L)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        vc.call(vc.fn(f"{M}:_generate_acq_channels_data_binned_append"), acq_channel_data=data,
                schedulable_label_to_acq_index=label, full_schedulable_label=key, nested_loop_repetitions=loops, coords=user,
                acq_num_in_operation=1, acq_channel=ch, acq_index=index)
    looped = bool(loops.n > 0)
    n = P if looped else 1
    vc.prove("one index per iteration", coords.n == L + n)
    got = label[(key, 1)]
    vc.prove("other acquisitions keep their indices", label[("old", 0)] == 5 and len(label) == 2)
    j = vc.int("j", 0)
    p.assume(j < n)
    if isinstance(got, list) and not hasattr(got, "at"):
        vc.prove("the indices follow the ones before", len(got) == 1 and not looped and bool(got[0] == L))
    else:
        vc.prove("as many indices as iterations", got.n == n)
        vc.prove("the indices follow the ones before", got.at(j) == L + j)
    vc.prove("coordinates are added once", len(coords.new) == 1)
    at, m, c = coords.new[0]
    vc.prove("coordinates stand at the index of the acquisition", S.and_(at == L, m == n))
    want = dict(user)
    if index is not None:
        want["acq_index_legacy_ch"] = 3
    got = dict(c(j))
    if looped:
        vc.prove("the iteration is reported", got.pop("loop_repetition_ch", -1) == j)
    vc.prove("the coordinates of the acquisition are reported", got == want)
    vc.prove("the coordinates of the operation are left alone", "acq_index_legacy_ch" not in user and len(user) <= 1)


@unit("C07.average", "C07", modes=("prove",), targets=[f"{M}:_generate_acq_channels_data_binned_average"])
def average(vc):
    """an averaging acquisition takes the next index, and an explicit index has to be that one"""
    L = vc.int("before", 0)
    explicit = bool(vc.bool("explicit"))
    index = vc.int("index") if explicit else None
    label, key = {("old", 0): 5}, ("label",)
    user = {"amp": 0.5}
    data = vc.fn("quantify_scheduler.schedules.schedule:AcquisitionChannelData")(
        acq_index_dim_name="acq_index_ch", protocol="SSBIntegrationComplex", bin_mode="average", coords=[])
    data.coords = coords = Coords(L)
    o = vc.run(vc.fn(f"{M}:_generate_acq_channels_data_binned_average"), acq_channel_data=data,
               schedulable_label_to_acq_index=label, full_schedulable_label=key, coords=user, acq_num_in_operation=0,
               acq_channel="ch", acq_index=index)
    fits = True if not explicit else bool(index == L)
    vc.prove("rejected exactly when the explicit index is not the next one", o.ok == fits, repr(o.exc))
    if not o.ok:
        vc.prove("rejected with a ValueError", isinstance(o.exc, ValueError))
        return
    vc.prove("the next index", label[(key, 0)] == L)
    vc.prove("one entry", coords.n == L + 1 and len(coords.new) == 1)
    vc.prove("its coordinates", S.and_(coords.new[0][0] == L, coords.new[0][2](0) == user))


@unit("C07.prod", "C07", modes=("bounded",), bounded={"len": 4}, targets=[f"{M}:_prod"])
def prod(vc):
    xs = vc.seq("xs", lambda i, name: vc.int(name, 0, 100))
    want = 1
    for x in xs:
        want = want * x
    vc.prove("product", vc.call(vc.fn(f"{M}:_prod"), xs) == want)


@unit("C07.walk", "C07", modes=("bounded", "fuzz"), fuzz=100, bounded={"len": 4}, targets=[f"{M}:_generate_acq_channels_data"],
      assumptions=["bounded: schedules of up to 4 schedulables (any times)"])
def walk(vc):
    """a schedule visits its operations in the order of their times; a loop adds its repetitions; labels tell them apart"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation

    kind = vc.choice("kind", ["schedule", "loop", "cond", "acquisition"])
    seen = []
    f = vc.fn(f"{M}:_generate_acq_channels_data")
    acq = SSBIntegrationComplex(port="q0:res", clock="q0.ro", duration=1e-7, acq_channel="c", bin_mode="append")
    loops = [2, 3]
    if kind == "schedule":
        op = Schedule("s")
        times = []
        for i in range(vc.length("n", 0, 4)):
            t = vc.real(f"t{i}", 0, 1)
            for u in times:
                vc.assume(u != t)
            times.append(t)
            op.add(LoopOperation(body=acq, repetitions=i + 2), label=f"l{i}")["abs_time"] = t
    elif kind == "acquisition":
        op = acq
    else:
        inner = Schedule("inner")
        inner.add(acq, label="a")["abs_time"] = 0.0
        op = LoopOperation(body=inner, repetitions=7) if kind == "loop" else ConditionalOperation(body=inner, qubit_name="q0")
    channels, labels = {}, {}
    f(op, channels, labels, False, ("root",), loops)
    vc.prove("the loops of the caller are left alone", loops == [2, 3])
    if kind == "schedule":
        order = sorted(range(len(times)), key=lambda i: times[i])
        at = 0
        for i in order:
            n = 6 * (i + 2)
            vc.prove("time order", labels[(("root", f"l{i}", None), 0)] == list(range(at, at + n)))
            at += n
        vc.prove("nothing else", len(labels) == len(times))
    elif kind == "loop":
        vc.prove("repetitions multiply", labels == {(("root", None, "a"), 0): list(range(42))})
    elif kind == "cond":
        vc.prove("a conditional adds no iterations", labels == {(("root", None, "a"), 0): list(range(6))})
    else:
        vc.prove("labelled as its schedulable", labels == {(("root",), 0): list(range(6))})
