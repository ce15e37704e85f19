"""C20: what is retrieved is what was measured, under its channel, index and repetition."""
from __future__ import annotations

from engine import sym as S
from engine.core import Fake, unit
from engine.rt import Ghost, LoopSpec, MapSeq

Q = "quantify_scheduler.instrument_coordinator.components.qblox"
U = "quantify_scheduler.instrument_coordinator.utility"
TARGETS = [f"{Q}:ClusterComponent.retrieve_acquisition", f"{Q}:_AcquisitionManagerBase", f"{Q}:_QRMAcquisitionManager",
           f"{Q}:_QTMAcquisitionManager", f"{Q}:_AnalogReadoutComponent.prepare", f"{U}:check_already_existing_acquisition",
           f"{U}:add_acquisition_coords_binned", f"{U}:add_acquisition_coords_nonbinned"]


@unit("C20.programs", "C20", modes=("fuzz",), fuzz=800, shards=4, budget=110, targets=TARGETS,
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "the hardware stores data as documented (vlib/qhard.py)", "bounded: random schedules"])
def programs(vc):
    """compile, prepare, measure, retrieve: every execution's value is under its channel, index and repetition"""
    import numpy as np
    from vlib import qacq, qasm, qhard
    import contextlib
    import io

    from vlib.qgen import ACQ_KINDS, ACQ_NS
    from vlib.qprop import Case

    c = Case(vc, kinds=("anyacq", "anyacq", "anyacq", "pulse", "nested"), across=vc.bool("across modules"),
             ports=[*ACQ_KINDS, ("q0:mw", "q0.01")], max_slots=5, big=False, long_ok=False, min_slot=12, reps=(1, 4), grid=4)
    if c.compiled is None or "cluster0" not in c.compiled.compiled_instructions:
        return
    table = qacq.assign(c.body)
    hw = qhard.Hardware(vc, c)
    comp = qhard.component()
    hw.install(comp)
    with contextlib.redirect_stdout(io.StringIO()), qasm.somewhere():
        comp.prepare(c.compiled.compiled_instructions["cluster0"])
    o = vc.run(comp.retrieve_acquisition)
    vc.prove("what was measured can be retrieved", o.ok, repr(o.exc)[:500])
    if not o.ok:
        return
    ds = o.value
    want = qhard.expected(hw)
    vc.prove("every channel is there, and no other", (set(ds.data_vars) if ds is not None else set()) == set(want),
             (ds is not None and list(ds.data_vars), list(want)))
    for ch, values in want.items():
        items = [it for it, _ in table[ch]]
        it, da = items[0], ds[ch]
        dim = f"acq_index_{ch}"
        vc.prove("the data says which protocol measured it", da.attrs.get("acq_protocol") == it.proto, (ch, da.attrs))
        if it.bm == "distribution":
            hist = {}
            for v in values[0, None]:
                if v:
                    hist[v] = hist.get(v, 0) + 1
            got = dict(zip((int(x) for x in da[f"counts_{ch}"].values), (float(x) for x in da.values)))
            vc.prove("a distribution counts every execution", got == hist, (ch, got, hist))
            coords = nonbinned(items, len(got))
        elif it.bm == "trace":
            (v,) = values.values()
            v = v[0] if it.pc[1] == "digital" else v[-1]
            n = it.n if it.pc[1] == "digital" else ACQ_NS
            w = np.array(v[0]) if it.pc[1] == "digital" else np.array(v[0]) + 1j * np.array(v[1])
            vc.prove("a trace has all its samples", da.dims == (dim, f"trace_index_{ch}") and da.shape == (1, n)
                     and list(da[f"trace_index_{ch}"].values) == list(range(n)), (ch, da.dims, da.shape, n))
            vc.prove("a trace is what was measured", np.array_equal(da.values[0], w), (ch, da.values[0][:4], w[:4]))
            coords = nonbinned(items, 1)
        else:
            separate = qacq.separate(it)
            dims = ("repetition", dim) if separate else (dim,)
            dims += (f"trace_index_{ch}",) if it.proto == "TimetagTrace" else ()
            vc.prove("the data has a dimension for the index, and for the repetition if those are kept", da.dims == dims, (ch, da.dims, dims))
            vc.prove("the indices are those of the acquisitions", sorted(int(x) for x in da[dim].values) == list(range(len(items))), (ch, da[dim].values))
            if separate:
                vc.prove("every repetition is there", [int(x) for x in da["repetition"].values] == list(range(c.reps)), (ch, da["repetition"].values))
            for (idx, rep), vs in values.items():
                at = {dim: idx, **({"repetition": rep} if separate else {})}
                x = da.sel(at).values
                if it.proto == "TimetagTrace":
                    (tags,) = vs
                    y = [(tags[0] + t - tags[0]) / 2048 for t in tags]
                    got = [float(v) for v in x if v == v]
                    shared = {id(x) for x in items if x.outer and x.outer is table[ch][idx][0].outer}
                    name = "timetag traces of several acquisitions in a loop" if len(shared) > 1 else "a value is under its channel, index and repetition"
                    vc.prove(name, got == y, (ch, idx, rep, got, y))
                    continue
                src, j = table[ch][idx]
                if src.bm == "sum" and src.loops:
                    continue  # (the hardware's average is over the iterations too; see DESIGN.md)
                y = reading(it, vs, c)
                vc.prove("a value is under its channel, index and repetition", qhard.same(complex(x), y), (ch, idx, rep, x, y, it))
            coords = {}
            for k, (it2, j) in enumerate(table[ch]):
                coords[k] = {**it2.coords, **({f"loop_repetition_{ch}": j} if it2.loops and separate else {})}
        for name in {n for x in coords.values() for n in x}:
            vc.prove("a coordinate is there", name in da.coords, (ch, name))
            for k, x in coords.items():
                y = da[name].sel({dim: k}).values
                vc.prove("a coordinate is at its index", qhard.same(float(y), float(x.get(name, float("nan")))), (ch, name, k, y, x))


def nonbinned(items, n):
    """the coordinates of the n entries of a channel of which the acquisitions are not stored separately, where it is clear"""
    first = items[0].coords
    return {k: first for k in range(n)} if all(it.coords == first for it in items) else {}


def reading(it, vs, c):
    """what is to be retrieved for an acquisition whose executions measured vs"""
    from vlib.qgen import ACQ_NS

    m = sum(v if not isinstance(v, tuple) else v[0] + 1j * v[1] for v in vs) / len(vs)
    if it.proto == "SSBIntegrationComplex":
        return m / ACQ_NS
    if it.proto == "TriggerCount":
        return sum(vs) if it.bm == "sum" else m
    if it.proto == "ThresholdedTriggerCount":
        return float(m >= 3)
    if it.proto == "Timetag":
        return m / 2048
    return m


# -- contracts of the functions that read and arrange the data


class Data(Fake):
    """of an acquisition channel"""

    def __init__(self, protocol, bin_mode, coords=()):
        self.protocol, self.bin_mode, self.coords, self.acq_index_dim_name = protocol, bin_mode, list(coords), "acq_index_ch"


class Bins(Fake):
    """what the hardware holds in its bins, any number of them"""

    def __init__(self, make):
        self.make, self.seen = make, []

    def __getitem__(self, b):
        for k, v in self.seen:
            if bool(k == b):
                return v
        self.seen.append((b, self.make(len(self.seen))))
        return self.seen[-1][1]


class Stored(Fake):
    """the acquisitions of a sequencer, by name: only one of them may be looked at"""

    def __init__(self, index, bins):
        self.index, self.bins = index, bins

    def __contains__(self, name):
        return name == str(self.index)

    def __getitem__(self, name):
        if name != str(self.index):
            raise KeyError(name)
        return {"index": self.index, "acquisition": {"bins": self.bins}}


def manager(vc, kind, data, repetitions=1):
    return vc.call(vc.fn(f"{Q}:_{kind}AcquisitionManager"), None, {"ch": data}, {}, {}, {"seq0": 0}, repetitions)


READINGS = [("QRM", "SSBIntegrationComplex", "append"), ("QRM", "SSBIntegrationComplex", "average"),
            ("QRM", "NumericalSeparatedWeightedIntegration", "append"), ("QRM", "WeightedIntegratedSeparated", "average"),
            ("QRM", "NumericalWeightedIntegration", "append"), ("QRM", "ThresholdedAcquisition", "append"),
            ("QRM", "WeightedThresholdedAcquisition", "average"), ("QRM", "ThresholdedTriggerCount", "append"),
            ("QRM", "TriggerCount", "append"), ("QTM", "TriggerCount", "append"), ("QTM", "TriggerCount", "sum"),
            ("QTM", "ThresholdedTriggerCount", "append"), ("QTM", "Timetag", "append"), ("QTM", "Timetag", "average")]


@unit("C20.readings", "C20", modes=("prove", "fuzz"), fuzz=200,
      targets=[f"{Q}:_QRMAcquisitionManager._get_integration_amplitude_data",
               f"{Q}:_QRMAcquisitionManager._get_integration_weighted_separated_data",
               f"{Q}:_QRMAcquisitionManager._get_integration_real_data", f"{Q}:_QRMAcquisitionManager._get_threshold_data",
               f"{Q}:_AcquisitionManagerBase._get_trigger_count_data",
               f"{Q}:_AcquisitionManagerBase._get_trigger_count_threshold_data", f"{Q}:_QTMAcquisitionManager._get_timetag_data"],
      assumptions=["the hardware stores data as documented (vlib/qhard.py)"])
def readings(vc):
    """the value for a bin is what its protocol says of what the hardware holds in that bin, for all bins and contents"""
    from quantify_scheduler.backends.types.common import ThresholdedTriggerCountMetadata
    from quantify_scheduler.enums import BinMode, TriggerCondition

    kind, proto, bm = vc.choice("protocol", READINGS)
    index = vc.choice("index", [0, 7])
    reps, duration = vc.int("repetitions", 1, 10**6), vc.int("duration", 1, 10**6)
    total = vc.int("counted", 0, 10**6)
    hit, nothing = vc.bool("hit"), proto == "ThresholdedTriggerCount" and bool(vc.bool("no counts"))
    nan = float("nan")
    real = lambda name: Bins(lambda k: vc.real(f"{name}{k}", -1000, 1000))  # noqa: E731
    count = Bins(lambda k: nan if nothing else (total / reps if bm == "sum" else total))
    never = Bins(lambda k: vc.real(f"else{k}", -5, 5))
    path0, path1, threshold, delta = real("path0 "), real("path1 "), Bins(lambda k: vc.ite(hit, 1.0, 0.0)), real("delta ")
    bins = {"integration": {"path0": path0, "path1": path1}, "threshold": threshold, "avg_cnt": count}
    if kind == "QTM":
        bins = {"count": count, "avg_cnt": never, "threshold": never, "timedelta": delta}
    elif "Count" not in proto:
        bins["avg_cnt"] = never
    m = manager(vc, kind, Data(proto, BinMode(bm)), reps)
    got = {}
    # the way the data is arranged has a contract of its own (C20.binned)
    m._get_binned_data = lambda bin_data_function, acq_channel, seq_channel_hardware_mapping: got.setdefault("f", bin_data_function)
    f = vc.call(m._protocol_to_acq_function_map[proto], hardware_retrieved_acquisitions=Stored(index, bins), acq_channel="ch",
                seq_channel_hardware_mapping={}, acq_duration=duration, sequencer_name="seq0")
    vc.prove("the data is arranged by its bins", f is got["f"])
    b = vc.int("bin", 0, 10**5)
    meta, least = None, vc.length("threshold", 0, 3)
    low = vc.bool("less than")
    if proto == "ThresholdedTriggerCount":
        meta = ThresholdedTriggerCountMetadata(
            threshold=least, condition=TriggerCondition.LESS_THAN if bool(low) else TriggerCondition.GREATER_THAN_EQUAL_TO)
    v = vc.call(f, index, b, meta)
    if proto == "ThresholdedTriggerCount":
        want = -1 if nothing else vc.ite(vc.ite(low, total < least, total >= least), 1, 0)
    elif proto == "TriggerCount":
        want = total
    elif proto == "Timetag":
        want = delta[b] / 2048
    elif "Threshold" in proto:
        want = threshold[b]
    elif proto == "NumericalWeightedIntegration":
        want = path0[b] + path1[b]
    else:
        d = duration if proto == "SSBIntegrationComplex" else 1
        vc.prove("the value in the bin", vc.And(close(vc, real_of(v), path0[b] / d), close(vc, imag_of(v), path1[b] / d)), (proto, v))
        return
    vc.prove("the value in the bin", vc.And(close(vc, real_of(v), want), close(vc, imag_of(v), 0)), (proto, v, want))


def real_of(v):
    from engine import garr

    return garr.re_(v)


def imag_of(v):
    from engine import garr

    return garr.im_(v)


def close(vc, a, b):
    from engine import garr

    return garr.close(vc, a, b)


class Mapping(Fake):
    """acquisition index -> bin, for any number of acquisitions"""

    @property
    def __class__(self):
        return dict

    def __init__(self, vc, spec):
        self.entries = vc.seq("acquisitions", lambda i, name: (
            vc.int(name + ".key", 0), Entry(vc.choice("index", [0, 3]), vc.int(name + ".bin", 0), vc.int(name + ".stride", 0), name)), spec=spec)

    def items(self):
        return self.entries

    def keys(self):
        return MapSeq(self.entries, lambda i, e: e[0])

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        return MapSeq(self.entries, lambda i, e: e[1])


class Entry(Fake):
    def __init__(self, index, bin_, stride, meta):
        self.index, self.bin, self.stride, self.thresholded_trigger_count_metadata = index, bin_, stride, meta


class Rows(Ghost):
    """a list that is being filled in a loop, of which one element is followed"""

    def __init__(self, n, followed, value):
        self.n, self.followed, self.value = n, followed, value

    @property
    def __class__(self):
        return list

    def __vc_len__(self):
        return self.n

    def append(self, x):
        if bool(self.n == self.followed):
            self.value = x
        self.n = self.n + 1

    def at(self, i):
        if not S.cur().vc.is_true(i == self.followed):
            raise S.Unsupported("another element than the one that is followed")
        return self.value


class Filling(LoopSpec):
    """contract of a loop over ``seq`` that appends one element to a list in each iteration; ``ok(x)``: is x what has to be element i?"""

    def __init__(self, i, ok, wanted, label):
        super().__init__(self.invariant, havoc=self.forget, entry=self.enter, label=label)
        self.i, self.ok, self.wanted, self.k = i, ok, wanted, 0

    def enter(self, st):
        names = [n for n, v in st.items() if type(v) is list and not v]
        if len(names) != 1:
            raise S.Unsupported(f"{self.label}: which list is filled?")
        self.name = names[0]

    def forget(self, st):
        return {self.name: Rows(S.cur().fresh("int", "filled"), self.i, self.wanted())}

    def invariant(self, st, k):
        self.k = k
        x = st[self.name]
        if type(x) is list:
            return [("length", k == len(x)), ("element", not x)]
        return [("length", x.n == k), ("element", S.implies(self.i < k, self.ok(x.value)))]


@unit("C20.binned", "C20", modes=("prove",), targets=[f"{Q}:_AcquisitionManagerBase._get_binned_data"],
      assumptions=["xarray.DataArray holds the given data", "add_acquisition_coords_binned: C20.coords"])
def binned(vc):
    """any number of acquisitions and repetitions: the value at (repetition, index) is that of bin + repetition * stride"""
    from quantify_scheduler.enums import BinMode

    p = S.cur()
    p.lazy_ranges = True
    append = bool(vc.bool("append"))
    R = vc.int("repetitions", 1)
    g, h = vc.int("a repetition", 0), vc.int("an acquisition", 0)
    entry = lambda: mapping.entries.at(h)  # noqa: E731

    def want(rep):  # (the data of a bin is told by its hardware index, bin and metadata)
        e = entry()[1]
        return (e.index, e.bin + rep * e.stride if append else e.bin, e.thresholded_trigger_count_metadata)

    same = lambda x, y: S.and_(*[a == b for a, b in zip(x, y)])  # noqa: E731
    at_rep = lambda: outer.k if append else 0  # noqa: E731
    inner = Filling(h, lambda v: same(v, want(at_rep())), lambda: want(at_rep()), "acquisitions")
    outer = Filling(g, lambda row: S.and_(length(row) == mapping.entries.n, same(row.at(h), want(g))),
                    lambda: Rows(mapping.entries.n, h, want(g)), "repetitions")
    mapping = Mapping(vc, inner)
    vc.assume(h < mapping.entries.n)
    vc.assume(g < R)
    p.range_specs = [(R, outer)]
    coords = [{"amp": 1.0}]
    m = manager(vc, "QTM", Data("TriggerCount", BinMode.APPEND if append else BinMode.SUM, coords), R)
    made, told = {}, []
    vc.stub(f"{Q}:DataArray", lambda *a, **k: made.setdefault("array", Array(a, k)))
    vc.stub(f"{U}:add_acquisition_coords_binned", lambda *a: told.append(a))
    r = vc.call(m._get_binned_data, lambda index, b, meta: (index, b, meta), "ch", mapping)
    vc.prove("the array is returned with its coordinates", r is made.get("array") and len(told) == 1 and told[0][0] is r
             and told[0][1] == coords and told[0][2] == "acq_index_ch")
    data = r.kw["data"]
    dims = list(r.kw["dims"])
    vc.prove("the dimensions", dims == (["repetition"] if append else []) + ["acq_index_ch"])
    vc.prove("the protocol", r.kw["attrs"] == {"acq_protocol": "TriggerCount"})
    keys = r.kw["coords"]["acq_index_ch"]
    vc.prove("as many indices as acquisitions", length(keys) == mapping.entries.n)
    vc.prove("an index is that of its acquisition", keys.at(h) == entry()[0])
    if append:
        reps = r.kw["coords"]["repetition"]
        vc.prove("repetitions are numbered", S.and_(length(reps) == R, reps.at(g) == g))
        vc.prove("as many rows as repetitions", length(data) == R)
        data = data.at(g)
    vc.prove("as many values as acquisitions", length(data) == mapping.entries.n)
    vc.prove("the value is that of its bin", same(data.at(h), want(g)))


class Array(Fake):
    """a new array"""

    def __init__(self, a, k):
        self.kw = {**dict(zip(("data", "coords", "dims", "name", "attrs"), a)), **k}


def length(x):
    return x.n if hasattr(x, "n") else len(x)


@unit("C20.distribution", "C20", modes=("bounded", "fuzz"), fuzz=200, bounded={"len": 4},
      targets=[f"{Q}:_AcquisitionManagerBase._get_trigger_count_data"],
      assumptions=["bounded (proof): up to 4 different counts", "xarray.DataArray holds the given data"])
def distribution(vc):
    """how often each count occurred, from what the hardware holds: how often at least so many were counted"""
    from quantify_scheduler.enums import BinMode

    n = vc.length("counts", 0, 4)
    hist = [vc.int(f"times {k + 1}", 0, 10**6) for k in range(n)]
    cumulative, after = [], 0
    for h in reversed(hist):
        after = after + h
        cumulative.insert(0, after)
    for i, c in enumerate(cumulative):  # (never written: not a number)
        if bool(c == 0) and bool(vc.bool("empty")):
            cumulative[i] = float("nan")
    cumulative += [float("nan")] * vc.length("unused", 0, 2)
    m = manager(vc, vc.choice("module", ["QRM", "QTM"]), Data("TriggerCount", BinMode.DISTRIBUTION), 3)
    m._acq_channels_data["ch"].coords = {}
    made = {}
    vc.stub(f"{Q}:DataArray", lambda *a, **k: made.setdefault("array", Array(a, k)), always=True)
    vc.stub(f"{U}:add_acquisition_coords_nonbinned", lambda *a: None, always=True)
    r = vc.call(m._protocol_to_acq_function_map["TriggerCount"], hardware_retrieved_acquisitions=Stored(2, {"avg_cnt": cumulative}),
                acq_channel="ch", seq_channel_hardware_mapping=2, acq_duration=None, sequencer_name="seq0")
    if vc.symbolic:
        values, counts = list(r.kw["data"]), list(r.kw["coords"]["counts_ch"][1])
    else:
        values, counts = [int(x) for x in r.values], [int(x) for x in r["counts_ch"].values]
    got = dict(zip(counts, values))
    vc.prove("each count is there once", len(counts) == len(values) == len(got) and counts == sorted(counts), (counts, values))
    for k in range(1, n + 3):
        want = hist[k - 1] if k <= n else 0
        vc.prove("a count is there as often as it occurred", got.get(k, 0) == want, (k, got))


@unit("C20.coords", "C20", modes=("fuzz",), fuzz=400, targets=[f"{U}:add_acquisition_coords_binned", f"{U}:add_acquisition_coords_nonbinned"],
      assumptions=["bounded: random coordinates"])
def coords_(vc):
    """every entry of an array has the coordinates of its acquisition index, whatever the order of the indices"""
    import random

    import numpy as np
    from xarray import DataArray

    n = vc.length("n", 0, 5)
    r = random.Random(vc.length("order", 0, 10**6))
    indices = list(range(n))
    r.shuffle(indices)
    da = DataArray(np.arange(float(n)), dims=["i"], coords={"i": indices})
    cs = [{k: r.randint(0, 5) for k in "abc" if r.random() < 0.5} for _ in range(n)]
    if vc.bool("binned"):
        vc.call(vc.fn(f"{U}:add_acquisition_coords_binned"), da, cs, "i")
    else:
        cs = [cs[0]] * n if n else []
        vc.call(vc.fn(f"{U}:add_acquisition_coords_nonbinned"), da, cs[0] if cs else {"a": 1}, "i")
    for name in {k for c in cs for k in c}:
        for i in indices:
            got, want = float(da[name].sel(i=i)), float(cs[i].get(name, float("nan")))
            vc.prove("a coordinate is at its index", got == want or (got != got and want != want), (name, i, got, want))
    vc.prove("the data stays", list(da.values) == list(range(n)) and list(da["i"].values) == indices)


@unit("C20.conflict", "C20", modes=("fuzz",), fuzz=400, targets=[f"{U}:check_already_existing_acquisition"],
      assumptions=["bounded: random datasets of a channel"])
def conflict(vc):
    """data of a channel that comes from two places is rejected exactly when both have a value at the same place"""
    import random

    import numpy as np
    from xarray import DataArray, Dataset

    r = random.Random(vc.length("seed", 0, 10**6))
    two = vc.bool("repetitions")
    m = vc.length("m", 1, 3) if two else 1

    def data():
        idx = r.sample(range(6), r.randint(1, 4))
        x = np.array([[r.choice([1.0, 2 + 1j, 0.0, float("nan")]) for _ in idx] for _ in range(m)])
        d = {"acq_index_c": idx}
        return DataArray(x if two else x[0], dims=(["repetition"] if two else []) + ["acq_index_c"],
                         coords={**({"repetition": list(range(m))} if two else {}), **d})

    a, b = data(), data()
    both = {(i, k) for i in set(a["acq_index_c"].values) & set(b["acq_index_c"].values) for k in range(m)
            if not any(np.isnan(complex(x.sel({"acq_index_c": i, **({"repetition": k} if two else {})}))) for x in (a, b))}
    other = Dataset({"c" if vc.bool("same channel") else "d": b})
    o = vc.run(vc.fn(f"{U}:check_already_existing_acquisition"), Dataset({"c": a}), other)
    want = bool(both) and "c" in other
    vc.prove("rejected exactly when both have a value", o.ok != want, (repr(o.exc), both))
    if not o.ok:
        vc.prove("rejected as documented", isinstance(o.exc, RuntimeError), repr(o.exc))
