"""Reference for acquisition indices and hardware bins of a generated schedule (see vlib/qgen.py).

The reference follows the order the documentation gives: acquisitions of a channel are numbered from zero in schedule
order, and an appending acquisition inside of loops takes one index per iteration.
"""
from __future__ import annotations

import math

SINGLE = ("average", "sum")  # one acquisition index however often the acquisition is executed


def separate(it):
    """is every execution of this acquisition stored separately?"""
    return it.bm == "append"


def assign(body):
    """number the acquisitions of the schedule; {channel: [(item, iteration)]} in index order"""
    table = {}

    def walk(b, loops, outer):
        for it in sorted(b.items, key=lambda i: i.t):
            if it.kind == "loop":
                nested = getattr(it, "nested", False)
                walk(it.body, loops + ([] if nested else [it.reps]), outer if outer or nested else it)
            elif it.kind == "cond":
                walk(it.body, loops, outer)
            elif it.kind in ("acq", "window"):
                it.loops, it.outer = list(loops), outer
                ch = table.setdefault(it.ch, [])
                if it.bm in ("distribution", "trace"):
                    it.first = 0
                    ch.append((it, None))
                elif separate(it):
                    it.first = len(ch)
                    ch += [(it, k) for k in range(math.prod(loops))]
                else:
                    it.first = len(ch)
                    ch.append((it, None))

    walk(body, [], None)
    return table


def executions(body):
    """[(t, item, iteration)] of one repetition, in time order"""
    out = []

    def walk(b, t0, k):
        for it in sorted(b.items, key=lambda i: i.t):
            if it.kind == "loop":
                for j in range(it.reps):
                    walk(it.body, t0 + it.t + j * it.body.dur, k * it.reps + j)
            elif it.kind == "cond":
                walk(it.body, t0 + it.t, k)
            elif it.kind in ("acq", "window"):
                out.append((t0 + it.t, it, k))

    walk(body, 0, 0)
    return out


def index_of(it, k):
    return it.first + k if separate(it) else it.first


def written(actual):
    """[(t, hardware index, bin)] of every acquisition the program starts"""
    out = []
    for t, kind, args in actual.acqs:
        if kind in ("acquire_timetags", "acquire_ttl") and args[2] != 1:
            continue
        out.append((t, args[0], args[1]))
    return out


def closed(actual):
    """do the windows close in the bin they were opened in?"""
    opened = None
    for t, kind, args in actual.acqs:
        if kind in ("acquire_timetags", "acquire_ttl"):
            if args[2] == 1:
                opened = args[:2]
            elif opened is not None and args[:2] != opened:
                return f"window opened in {opened} closes in {args[:2]} at {t}"
    return None


def expected(case, pc):
    """[(t, item, iteration, repetition)] of every acquisition on a port-clock, in time order"""
    out = []
    for r in range(case.reps):
        t0 = r * (case.body.dur + case.header)
        out += [(t0 + t, it, k, r) for t, it, k in executions(case.body) if it.pc == pc]
    return out


def check_sequencer(case, pc, limit_bins=100000, limit_indices=32):
    """obligations [(name, holds, detail)] about one sequencer"""
    e, a, q = case.progs[pc]
    decl = {v["index"]: v["num_bins"] for v in (q.sequence.get("acquisitions") or {}).values()}
    out = [("declared hardware indices are distinct", len(decl) == len(q.sequence.get("acquisitions") or {}), None),
           ("declared memory is within the limits", all(0 < n <= limit_bins for n in decl.values()) and len(decl) <= limit_indices
            and all(0 <= i < limit_indices for i in decl), decl)]
    want = expected(case, pc)
    got = written(a)
    if len(want) != len(got) or any(w[0] != g[0] for w, g in zip(want, got)):
        out.append(("every acquisition is executed at its time", False, (pc, [w[0] for w in want][:8], got[:8])))
        return out
    out.append(("windows close in the bin they opened in", closed(a) is None, closed(a)))
    bad = [(t, i, b) for t, i, b in got if i not in decl or not 0 <= b < decl[i]]
    out.append(("every bin lies within its declared memory", not bad, (pc, bad[:3], decl)))
    where, home = {}, {}
    for (t, it, k, r), (_t, i, b) in zip(want, got):
        me = (it.ch, index_of(it, k), r if separate(it) else None)
        where.setdefault(me, set()).add((i, b))
        other = home.setdefault((i, b), me)
        if other != me:
            out.append(("no two acquisitions share a bin", False, (pc, "bin", (i, b), "holds", other, "and", me)))
            return out
    two = [(me, w) for me, w in where.items() if len(w) > 1]
    out.append(("an acquisition index has one bin", not two, (pc, two[:2])))
    if two:
        return out
    mapping = case.mapping(pc)
    chans = {it.ch for _, it, _, _ in want}
    out.append(("the mapping knows the channels of the sequencer", set(mapping) == chans, (pc, set(mapping), chans)))
    for (ch, idx, r), w in where.items():
        m = mapping.get(ch)
        (w,) = w
        if isinstance(m, int):
            ok = (m, 0) == w
        else:
            x = (m or {}).get(idx)
            ok = x is not None and (x.index, x.bin + (r or 0) * x.stride) == w
        if not ok:
            out.append(("the mapping points at the bin that is written", False,
                        (pc, "channel", ch, "index", idx, "repetition", r, "written", w, "mapping", m)))
            return out
    for ch, m in mapping.items():
        if not isinstance(m, int):
            extra = set(m) - {idx for c, idx, _ in where if c == ch}
            if extra:
                out.append(("the mapping has no indices that are not acquired", False, (pc, ch, extra)))
    return out
