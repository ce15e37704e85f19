"""C01: loops over arbitrarily many operations (unbounded proofs with loop contracts)."""
from engine.core import Fake, unit

C = "quantify_scheduler.compilation"
S = "quantify_scheduler.schedules.schedule"


class Values(Fake):
    """mapping with an unbounded symbolic sequence of values"""

    def __init__(self, seq):
        self.seq = seq

    def values(self):
        return self.seq

    def __iter__(self):
        return iter(self.seq)


class Op(Fake):
    def __init__(self, duration):
        self.duration = duration


class Ops(Fake):
    def __getitem__(self, k):
        return k


def sched_of(vc, n_name, spec_fn, bound=None):
    from quantify_scheduler import Schedule

    s = Schedule("s")
    elems = {}

    def make(i, name):
        e = {"abs_time": vc.real(name + ".t", -10, 10), "operation_id": Op(vc.real(name + ".d", 0, 10))}
        if bound is not None:
            bound(e)
        return e

    seq = vc.seq(n_name, make, lo=1, spec=spec_fn) if vc.symbolic else vc.seq(n_name, make, lo=1, hi=9)
    s.data["schedulables"] = Values(seq)
    s.data["operation_dict"] = Ops()
    return s, seq


@unit("C01.duration-unbounded", "C01", targets=[f"{S}:ScheduleBase.get_schedule_duration"], fuzz=100)
def duration(vc):
    """least upper bound of all ends, times repetitions, for any number of operations"""
    g = vc.int("ghost index", 0)
    U = vc.real("any upper bound", 0)
    spec = None
    if vc.symbolic:
        from engine.rt import LoopSpec

        def inv(st, k):
            e = seq.at(g)
            end = e["abs_time"] + e["operation_id"].duration
            return [("covers every processed end", vc.implies(g < k, st.schedule_duration >= end)),
                    ("no larger than any bound", st.schedule_duration <= U),
                    ("not negative", st.schedule_duration >= 0)]

        spec = LoopSpec(inv, reals=("schedule_duration", "tmp_time", "timestamp"), label="duration loop")
    s, seq = sched_of(vc, "ops", spec, lambda e: vc.assume(e["abs_time"] + e["operation_id"].duration <= U))
    reps = vc.int("repetitions", 1, 10**6)
    s.data["repetitions"] = reps
    r = vc.call(s.get_schedule_duration)
    if vc.symbolic:
        vc.assume(g < seq.n)
        e = seq.at(g)
        vc.prove("covers every end", r >= reps * (e["abs_time"] + e["operation_id"].duration))
        vc.prove("is the least bound", r <= reps * U)
    else:
        ends = [e["abs_time"] + e["operation_id"].duration for e in seq]
        vc.prove("duration", vc.eq(r, reps * max([0, *ends])))


@unit("C01.normalise", "C01", modes=("bounded", "fuzz"), targets=[f"{C}:_normalize_absolute_timing"], fuzz=100,
      bounded={"len": 4})
def normalise(vc):
    """all times shift by the same amount so that the earliest is zero (or none is negative)"""
    f = vc.fn(f"{C}:_normalize_absolute_timing")
    s, seq = sched_of(vc, "ops", None)
    before = [e["abs_time"] for e in seq]
    vc.call(f, s)
    after = [e["abs_time"] for e in seq]
    sh = after[0] - before[0]
    vc.prove("common shift", vc.And([vc.eq(a - b, sh) for a, b in zip(after, before)]))
    vc.prove("none negative", vc.And([a >= 0 for a in after]))
    vc.prove("not shifted further than needed", vc.Or(sh == 0, vc.Or([a == 0 for a in after])))
