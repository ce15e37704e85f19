"""C06: hardware acquisition bins are never shared by two acquisitions."""
from __future__ import annotations

from types import SimpleNamespace

from engine import sym as S
from engine.core import unit
from engine.rt import Ghost, LoopSpec

M = "quantify_scheduler.backends.qblox.qblox_acq_index_manager"
TARGETS = [M, "quantify_scheduler.backends.qblox.compiler_abc", "quantify_scheduler.backends.qblox.operation_handling.acquisitions",
           "quantify_scheduler.backends.qblox.operation_handling.loops",
           "quantify_scheduler.helpers.generate_acq_channels_data", "quantify_scheduler.backends.qblox_backend"]


@unit("C06.program", "C06", modes=("fuzz",), fuzz=1200, shards=4, budget=110, targets=TARGETS,
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "bounded: random schedules"])
def program(vc):
    """every bin a compiled program writes belongs to one acquisition, and is where the mapping says"""
    from vlib import qacq
    from vlib.qgen import ACQ_KINDS
    from vlib.qprop import Case

    c = Case(vc, kinds=("anyacq", "anyacq", "anyacq", "pulse", "nested"), across=vc.bool("across modules"), ports=[*ACQ_KINDS, ("q0:mw", "q0.01")], max_slots=5,
             big=False, long_ok=False, min_slot=12, shuffle=vc.bool("shuffle"), reps=(1, 4), must_compile=True)  #
    if c.compiled is None:
        return
    c.well_formed()
    qacq.assign(c.body)
    for pc in ACQ_KINDS:
        if pc in c.progs:
            for name, ok, detail in qacq.check_sequencer(c, pc):
                vc.prove(name, ok, detail)


@unit("C06.limits", "C06", modes=("fuzz",), fuzz=200, shards=2, budget=60, targets=TARGETS,
      assumptions=["bounded: random schedules"])
def limits(vc):
    """many repetitions and iterations: declared memory, or rejection when it does not suffice"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import acquisition_library as al
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from vlib import qcheck, qhw
    from vlib.qprop import config

    reps = vc.choice("reps", [1, vc.length("few", 1, 50), vc.length("some", 1, 5000), vc.length("many", 5000, 120000)])
    s = qhw.new_schedule(repetitions=reps)
    need = {}
    pc = ("b0:res", "b0.ro")
    bms = [vc.choice("bm", ["append", "average"]) for _ in range(3)]
    for _ in range(vc.length("n", 1, 4)):
        ch = vc.length("ch", 0, 2)
        bm = bms[ch]
        a = al.SSBIntegrationComplex(port=pc[0], clock=pc[1], duration=100e-9, acq_channel=f"c{ch}", bin_mode=bm)
        k = vc.choice("loop", [0, 0, vc.length("iter", 1, 40), vc.length("iters", 1, 3000)])
        if k:
            body = Schedule("b")
            body.add(a)
            from quantify_scheduler.operations.pulse_library import IdlePulse
            body.add(IdlePulse(400e-9))
            s.add(LoopOperation(body=body, repetitions=k), rel_time=400e-9)
        else:
            s.add(a, rel_time=400e-9)
        need[f"c{ch}"] = need.get(f"c{ch}", 0) + ((k or 1) * reps if bm == "append" else 1)
    o = vc.run(qhw.compile_, s, None, config_=config())
    fits = all(v <= 100000 for v in need.values())
    if not o.ok:
        vc.prove("what fits is accepted", not fits, repr(o.exc)[:400])
        vc.prove("what does not fit is rejected as such", isinstance(o.exc, IndexError), repr(o.exc)[:400])
        return
    vc.prove("what does not fit is rejected", fits, need)
    q = qcheck.seq_of(o.value, pc)
    decl = sorted(v["num_bins"] for v in q.sequence["acquisitions"].values())
    vc.prove("as much memory as needed", decl == sorted(need.values()), (decl, need))


class FreeBins(Ghost):
    """_next_free_qblox_acq_bin: 32 counters, any values"""

    def __init__(self, vals):
        self.vals = vals

    def __getitem__(self, i):
        return self.vals[self._at(i)]

    def __setitem__(self, i, v):
        self.vals[self._at(i)] = v

    def _at(self, i):
        return S.CUR.concretize(i) if isinstance(i, S.Sym) else i

    def __len__(self):
        return len(self.vals)

    def __iter__(self):
        return iter(list(self.vals))


class ChannelMap(Ghost):
    """a dict keyed by channels of which only the entry of one channel is looked at and changed"""

    def __init__(self, c, has, value):
        self.c, self.has, self.value = c, has, value

    def _mine(self, c):
        if c is not self.c:
            self._bad()

    def __contains__(self, c):
        self._mine(c)
        return bool(self.has)

    def get(self, c, default=None):
        self._mine(c)
        return self.value if bool(self.has) else default

    def __getitem__(self, c):
        self._mine(c)
        if not bool(self.has):
            raise KeyError(c)
        return self.value

    def __setitem__(self, c, v):
        self._mine(c)
        self.has, self.value = True, v

    def setdefault(self, c, v):
        if c not in self:
            self[c] = v
        return self.value


class BinMap(Ghost):
    """what was allocated for the channel before, plus ``news``"""

    def __init__(self):
        self.news = []

    def update(self, d):
        self.news.append(d)


class Declared(Ghost):
    """_acq_declaration_dict: an entry for the indices that have bins, with as many bins as were given out"""

    def __init__(self, free):
        self.old = list(free.vals)
        self.new = {}

    def __contains__(self, key):
        i = int(key)
        return i in self.new or bool(self.old[i] > 0)

    def __getitem__(self, key):
        i = int(key)
        if i not in self.new:
            if not bool(self.old[i] > 0):
                raise KeyError(key)
            self.new[i] = {"num_bins": self.old[i], "index": i}
        return self.new[i]

    def __setitem__(self, key, v):
        self.new[int(key)] = v

    def get(self, key, default=None):
        return self[key] if key in self else default

    def setdefault(self, key, v):
        if key not in self:
            self[key] = v
        return self[key]


@unit("C06.manager", "C06", modes=("prove",), budget=120, shards=4,
      targets=[f"{M}:QbloxAcquisitionIndexManager.{m}" for m in ("allocate_bins", "allocate_trace", "allocate_timetagtrace",
               "allocate_qblox_index", "_reserve_qblox_acq_bins", "_number_of_free_qblox_bins",
               "_next_qblox_acq_index_with_all_free_bins")],
      assumptions=["a channel is used with one protocol and bin mode (rejected otherwise, C07)",
                   "state of the manager: any that satisfies the representation invariant proved here"])
def manager(vc):
    """every request keeps the invariant and hands out bins nobody has, after any history"""
    p = S.cur()
    LIM = 100000
    cls = vc.fn(f"{M}:QbloxAcquisitionIndexManager")
    m = cls()
    vc.representation(m, "_acq_declaration_dict", "_acq_hardware_mapping_binned", "_acq_hardware_mapping_not_binned",
                      "_next_free_qblox_acq_bin", "_acq_channel_to_qblox_acq_index", "_trace_allocated")
    free = FreeBins([vc.int(f"free{i}", 0, LIM) for i in range(32)])
    before = list(free.vals)
    method = vc.choice("method", ["bins", "one bin", "timetagtrace", "trace", "index"])
    C = "C"
    known = vc.bool("known")
    traced = vc.bool("trace_allocated")
    binned = method in ("bins", "one bin", "timetagtrace")
    if bool(known):
        home = vc.length("home", 0, 31)
        p.assume(before[home] > 0)
    else:
        home = None
    old = BinMap()
    m._next_free_qblox_acq_bin = free
    m._acq_declaration_dict = decl = Declared(free)
    m._acq_channel_to_qblox_acq_index = chan = ChannelMap(C, known, home)
    m._acq_hardware_mapping_binned = mb = ChannelMap(C, S.and_(known, binned), old)
    m._acq_hardware_mapping_not_binned = mn = ChannelMap(C, S.and_(known, not binned), home)
    m._trace_allocated = traced
    # an acquisition of another channel, or an earlier one of this channel
    k_idx, k_bin, k_len = vc.int("k_idx", 0, 31), vc.int("k_bin", 0, LIM), vc.int("k_len", 1, LIM)
    k_same = vc.bool("k_same_channel")
    for i in range(32):
        p.assume(S.implies(k_idx == i, k_bin + k_len <= before[i]))
    if home is None:
        p.assume(S.not_(k_same))
    else:
        p.assume(vc.eq(k_same, k_idx == home))  # invariant: channels have their own index
    n = vc.int("n", 1, 10**6)
    reps = vc.int("reps", 1, 10**7)
    if method == "bins":
        seq = vc.seq("indices", lambda i, name: (vc.int(name, 0, 10**6), None), lo=1, spec=LoopSpec(lambda st, k: []))
        p.assume(seq.n == n)
        none = bool(vc.bool("no repetitions"))
        r = 1 if none else reps
        o = vc.run(m.allocate_bins, C, seq, "seq0", None if none else reps)
    elif method == "one bin":
        n, r = 1, reps
        o = vc.run(m.allocate_bins, C, (7, None), "seq0", reps)
    elif method == "timetagtrace":
        seq = vc.seq("indices", lambda i, name: vc.int(name, 0, 10**6), lo=1, spec=LoopSpec(lambda st, k: []))
        p.assume(seq.n == n)
        r = reps
        o = vc.run(m.allocate_timetagtrace, C, seq, "seq0", reps)
    elif method == "trace":
        n, r = 1, 1
        o = vc.run(m.allocate_trace, C, "seq0")
    else:
        n, r = LIM, 1
        o = vc.run(m.allocate_qblox_index, C, "seq0")
    if not o.ok:
        if isinstance(o.exc, (AttributeError, TypeError)):
            raise S.Unsupported(f"state model: {o.exc!r}")
        vc.prove("only running out of memory or a second trace is rejected", isinstance(o.exc, (IndexError, RuntimeError)), repr(o.exc))
        room = [S.and_(v == 0, n * r <= LIM) for v in before] if home is None else [before[home] + n * r <= LIM]
        vc.prove("requests that fit are accepted",
                 S.or_(S.not_(S.or_(*room)), S.and_(traced, S.not_(known), method in ("trace", "timetagtrace"))))
        return
    if method in ("trace", "timetagtrace"):
        vc.prove("one trace channel on a sequencer", S.or_(known, S.not_(traced)))
        second = vc.fn(f"{M}:QbloxAcquisitionIndexManager").allocate_trace
        m2 = cls()
        m2._next_free_qblox_acq_bin, m2._acq_channel_to_qblox_acq_index = [0] * 32, {}
        m2._trace_allocated = m._trace_allocated
        if not bool(known):  # (a known channel was a trace channel before)
            o2 = vc.run(second, m2, "D", "seq0")
            vc.prove("one trace channel on a sequencer", isinstance(o2.exc, RuntimeError), repr(o2.exc or "accepted"))
    idx, off = o.value if isinstance(o.value, tuple) else (o.value, 0)
    vc.prove("a hardware index in range", isinstance(idx, int) and 0 <= idx < 32)
    again = bool(known) and not binned
    if bool(known):
        vc.prove("a channel keeps its hardware index", idx == home)
    else:
        vc.prove("a new channel gets an index nobody has", S.and_(before[idx] == 0, S.not_(vc.eq(k_idx, idx))))
    size = before[idx] if again else n * r
    if not again:
        vc.prove("the bins are not given out yet", S.implies(k_idx == idx, S.or_(k_bin + k_len <= off, off + size <= k_bin)))
        vc.prove("the bins follow the ones given out", off == before[idx])
    else:
        vc.prove("a channel that is not binned reads from bin 0", off == 0)
    vc.prove("never more bins than the hardware has", free.vals[idx] <= LIM)
    vc.prove("exactly these bins are taken", free.vals[idx] == before[idx] + (0 if again else size))
    vc.prove("no other index changes", all(free.vals[i] is before[i] for i in range(32) if i != idx)
             and all(i == idx for i in decl.new))
    vc.prove("the declaration counts the bins given out", decl[str(idx)]["num_bins"] == free.vals[idx])
    vc.prove("the declaration names its index", decl[str(idx)]["index"] == idx)
    vc.prove("the channel is at its index", S.and_(bool(chan.has), chan.value == idx))
    if binned:
        vc.prove("mapped as binned", bool(mb.has) and not bool(mn.has))
        d = mb.value.news[-1] if isinstance(mb.value, BinMap) else mb.value
        vc.prove("earlier acquisitions of the channel stay mapped", S.or_(S.not_(known), mb.value is old and len(old.news) == 1))
        if method == "one bin":
            ((key, x),) = d.items() if isinstance(d, dict) else [d.vc_at(0)]
            j = 0
        else:
            j = vc.int("j", 0, 10**6)
            p.assume(j < n)
            vc.prove("every acquisition index is mapped", d.n == n)
            key, x = d.vc_at(j)
            want = seq.at(j)
            vc.prove("under its own index", vc.eq(key, want[0] if isinstance(want, tuple) else want))
        vc.prove("mapped to the bin that was reserved", S.and_(x.index == idx, x.bin == off + j))
        vc.prove("one stride per repetition covers all indices", x.stride == n)
    else:
        vc.prove("mapped as not binned", bool(mn.has) and not bool(mb.has))
        vc.prove("mapped to its index", mn.value == idx)


@unit("C06.history", "C06", modes=("fuzz",), fuzz=1500, targets=[f"{M}:QbloxAcquisitionIndexManager"])
def history(vc):
    """any history of requests to a fresh manager: bins are never given out twice, what fits is accepted, one trace channel"""
    LIM, IDX = 100000, 32  # (bins of an index, indices of a sequencer)
    m = vc.fn(f"{M}:QbloxAcquisitionIndexManager")()
    home, use, mapped, trace = {}, {}, {}, None
    kinds = {}
    for step in range(vc.length("requests", 1, 40)):
        c = f"c{vc.length('channel', 0, vc.choice('channels', [2, 5, 40]))}"
        kind = kinds.setdefault(c, vc.choice("kind", ["bins", "bins", "one bin", "timetagtrace", "trace", "index"]))
        reps = vc.choice("reps", [1, 1, vc.length("few", 1, 30), vc.length("many", 1, LIM + 5)])
        k = 1 if kind in ("one bin", "trace") else vc.length("n", 1, 12)
        first = sum(len(v) for ch, v in mapped.items() if ch == c)
        idx = list(range(first, first + k))
        call = {"bins": lambda: m.allocate_bins(c, [(i, None) for i in idx], "seq0", reps),
                "one bin": lambda: m.allocate_bins(c, (idx[0], None), "seq0", reps),
                "timetagtrace": lambda: m.allocate_timetagtrace(c, idx, "seq0", reps),
                "trace": lambda: m.allocate_trace(c, "seq0"), "index": lambda: m.allocate_qblox_index(c, "seq0")}[kind]
        size = {"trace": 1, "index": LIM}.get(kind, k * reps)
        again = c in home and kind in ("trace", "index")
        i = home.get(c)
        free = [x for x in range(IDX) if x not in use]
        fits = again or ((i is not None or bool(free)) and use.get(i, 0) + size <= LIM)
        clash = kind in ("trace", "timetagtrace") and trace not in (None, c)
        o = vc.run(call)
        what = (step, c, kind, k, reps, repr(o.exc or o.value))
        if clash:
            vc.prove("one trace channel on a sequencer", isinstance(o.exc, RuntimeError), what)
            continue
        if not fits:
            vc.prove("what does not fit is rejected", isinstance(o.exc, IndexError), what)
            continue
        vc.prove("what fits is accepted", o.ok, what)
        got, off = o.value if isinstance(o.value, tuple) else (o.value, 0)
        vc.prove("a channel keeps its hardware index" if i is not None else "a new channel gets an index nobody has",
                 got == i if i is not None else got in free, what)
        home[c] = got
        if kind in ("trace", "timetagtrace"):
            trace = c
        if again:
            vc.prove("a channel that is not binned reads from bin 0", off == 0, what)
            continue
        vc.prove("the bins are not given out yet", use.get(got, 0) <= off, what)
        use[got] = off + size
        if kind not in ("trace", "index"):
            mapped.setdefault(c, {}).update({j: (got, off + n, k) for n, j in enumerate(idx)})
        decl = m.acq_declaration_dict()
        vc.prove("declared memory covers the bins given out",
                 all(decl[str(h)]["num_bins"] >= use[h] and decl[str(h)]["index"] == h for h in use)
                 and all(d["num_bins"] <= LIM for d in decl.values()), (what, decl))
    hw = m.acq_hardware_mapping()
    vc.prove("every channel is mapped", set(hw) == set(home), (set(hw), set(home)))
    for c, h in home.items():
        if c in mapped:
            vc.prove("every acquisition index is mapped to its bin",
                     {j: (b.index, b.bin, b.stride) for j, b in hw[c].items()} == mapped[c], (c, hw[c], mapped[c]))
        else:
            vc.prove("mapped to its index", hw[c] == h, (c, hw[c], h))
