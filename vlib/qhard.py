"""A cluster that measures what the compiled programs tell it to, for the retrieval of acquisitions.

The instrument drivers are the dummy ones of qblox_instruments, apart from the functions with which measured data is read: these
return what a cluster would have stored when every ``acquire`` that the programs execute (vlib/q1sim.py) measures a value of its
own, as documented for the hardware: values in the same bin are averaged, bins that are not written hold nan.
"""
from __future__ import annotations

import math

from vlib import qacq, qhw
from vlib.qgen import ACQ_NS

NAN = float("nan")
_CLUSTER = []


def component():
    """the component of the instrument coordinator for the cluster of vlib/qhw.py"""
    if not _CLUSTER:
        from qblox_instruments import Cluster, ClusterType
        from quantify_scheduler.instrument_coordinator.components import qblox

        cluster = Cluster("cluster0", dummy_cfg={str(k): getattr(ClusterType, f"CLUSTER_{t}") for k, t in qhw.TYPES.items()})
        _CLUSTER.append(qblox.ClusterComponent(cluster))
    return _CLUSTER[0]


class Hardware:
    """what every execution of every acquisition measured, and what the modules hold of it"""

    def __init__(self, vc, case):
        self.vc, self.case = vc, case
        self.values = {}  # (channel, acquisition index, repetition or None) -> what it measured, execution by execution
        self.store = {}  # module -> sequencer index -> acquisitions
        self.scope = {}  # module -> sequencer index -> scope events (QTM)
        self.stored = set()
        for mod, t in qhw.TYPES.items():
            module = case.compiled.compiled_instructions["cluster0"].get(f"cluster0_module{mod}")
            for name, q in (module or {"sequencers": {}})["sequencers"].items():
                pc = next(pc for pc, (m, ch, _k) in qhw.PORTS.items() if m == mod and ch == q.channel_name)
                if pc in case.progs:
                    self.measure(mod, t, int(name[3:]), pc)

    def measure(self, mod, t, seq, pc):
        vc, case = self.vc, self.case
        _e, a, q = case.progs[pc]
        want, got = qacq.expected(case, pc), qacq.written(a)
        if len(want) != len(got):
            vc.assume(False)  # (C06)
        decl = (q.sequence.get("acquisitions") or {}).values()
        bins = {v["index"]: [[] for _ in range(v["num_bins"])] for v in decl}
        scopes, windows = {}, []
        now = 0
        for (_t, it, k, r), (_t2, i, b) in zip(want, got):
            me = (it.ch, qacq.index_of(it, k), r if qacq.separate(it) else None)
            v = self.value(it, t)
            self.values.setdefault(me, []).append(v)
            if it.proto == "Trace":
                if t != "QTM":
                    scopes[i] = v  # (the last one is kept)
                windows.append(v)
            elif it.proto == "TimetagTrace":
                now += 10**6
                windows.append((now, v))
                bins[i][b].append(v)
            else:
                bins[i][b].append(v)
        per = {i: self.binned(q, i, bins[i], t, scopes.get(i), pc) for i in bins}
        self.store.setdefault(mod, {})[seq] = {str(i): {"index": i, "acquisition": x} for i, x in per.items()}
        self.scope.setdefault(mod, {})[seq] = windows

    def value(self, it, t):
        vc = self.vc
        real = lambda: round(vc.real("v", -1000, 1000), 3)  # noqa: E731
        if it.proto in ("SSBIntegrationComplex", "NumericalSeparatedWeightedIntegration"):
            return (real(), real())
        if it.proto == "ThresholdedAcquisition":
            return vc.choice("bit", [0.0, 1.0])
        if it.proto == "TriggerCount" and it.bm == "distribution":
            return vc.length("count", 0, 6)
        if it.proto in ("TriggerCount", "ThresholdedTriggerCount"):
            return vc.length("count", 0, 9)
        if it.proto == "Timetag":
            return vc.length("tag", 0, 10**6)
        if it.proto == "TimetagTrace":
            return [vc.length("tag", 0, 10**5) for _ in range(vc.length("tags", 0, 3))]
        if it.proto == "Trace":
            n = it.n if t == "QTM" else ACQ_NS
            a, b = vc.length("trace", 0, 50), vc.length("trace2", 0, 50)
            return ([a + 0.25 * j for j in range(n)], [b - 0.5 * j for j in range(n)])
        raise AssertionError(it.proto)

    @staticmethod
    def binned(q, i, bins, t, scope, pc):
        mean = lambda xs: sum(xs) / len(xs) if xs else NAN  # noqa: E731
        out = {"bins": {"avg_cnt": [len(x) for x in bins], "threshold": [NAN] * len(bins)}}
        one = next((x[0] for x in bins if x), None)
        if t == "QTM":
            plain = [[y for y in x if not isinstance(y, list)] for x in bins]
            out["bins"]["count"] = [mean(x) for x in plain]
            out["bins"]["timedelta"] = [mean(x) for x in plain]
            if isinstance(one, list):
                out["bins"]["timedelta"] = [(x[0][0] if x and x[0] else NAN) for x in bins]
            return out
        if isinstance(one, tuple):
            out["bins"]["integration"] = {"path0": [mean([v[0] for v in x]) for x in bins], "path1": [mean([v[1] for v in x]) for x in bins]}
        else:
            out["bins"]["integration"] = {"path0": [NAN] * len(bins), "path1": [NAN] * len(bins)}
        if isinstance(one, float):
            out["bins"]["threshold"] = [mean(x) for x in bins]
        if isinstance(one, int):
            if len(bins) == 100000:  # a distribution: how many counted at least so many
                flat = [v for x in bins for v in x]
                out["bins"]["avg_cnt"] = [sum(v >= c for v in flat) or NAN for c in range(1, 20)]
            else:
                out["bins"]["avg_cnt"] = [mean(x) for x in bins]
        out["hidden scope"] = scope
        return out

    def install(self, comp):
        """let the modules of the dummy cluster return this"""
        cluster = comp.instrument

        def store_scope(slot, seq, name):
            self.stored.add((slot, seq, name))

        cluster.store_scope_acquisition = store_scope
        for mod in qhw.TYPES:
            m = getattr(cluster, f"module{mod}")
            m.get_acquisitions = lambda seq, mod=mod: self.acquisitions(mod, seq)
            if qhw.TYPES[mod] == "QTM":
                for k, ch in enumerate(m.io_channels):
                    ch.get_scope_data = lambda mod=mod, k=k: self.scope_data(mod, k)

    def acquisitions(self, mod, seq):
        out = {}
        for name, x in self.store.get(mod, {}).get(seq, {}).items():
            acq = {k: v for k, v in x["acquisition"].items() if k != "hidden scope"}
            s = x["acquisition"].get("hidden scope")
            if qhw.TYPES[mod] != "QTM":
                there = s is not None and (mod, seq, name) in self.stored
                acq["scope"] = {f"path{p}": {"data": list(s[p]) + [7.0] * 20 if there else [], "out-of-range": False, "avg_cnt": 1} for p in (0, 1)}
            out[name] = {"index": x["index"], "acquisition": acq}
        return out

    def scope_data(self, mod, channel):
        """(a sequencer of a QTM is connected to the channel with its index)"""
        w = self.scope.get(mod, {}).get(channel, [])
        if w and isinstance(w[0][1], list) and isinstance(w[0][0], list):
            return w[0][0] + [-1.0] * 5
        out = []
        for now, tags in w:
            out.append(["OPEN", now])
            out += [["RISE", now + 5 + t - tags[0]] for t in tags]
            out.append(["CLOSE", now + 5 * 10**5])
        return out


def expected(hw):
    """what has to be retrieved: {channel: {(acquisition index, repetition or None): value}}, apart from distributions and traces"""
    out = {}
    for (ch, idx, rep), vs in hw.values.items():
        out.setdefault(ch, {})[idx, rep] = vs
    return out


def same(x, y):
    if isinstance(y, float) and math.isnan(y):
        return x != x
    return abs(x - y) <= 1e-9 * max(1, abs(y))
