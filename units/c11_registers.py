"""C11: sequencer registers."""
from engine.core import unit

RM = "quantify_scheduler.backends.qblox.register_manager:RegisterManager"
QP = "quantify_scheduler.backends.qblox.qasm_program:QASMProgram"
INJ = "quantify_scheduler.backends.qblox.operation_handling.q1asm_injection_strategy:Q1ASMInjectionStrategy"
N = 64
BAD = ["", None, "r1", "R64", "R65", "R-1", "Rx", "R01", "R1 ", "1", "R", "R1.0", "RR1", "R٣"]


def free_of(m):
    return [str(r) for r in m.available_registers]


class AvailList:
    """An arbitrary duplicate-free list of registers: its content is an uninterpreted predicate (ghost model of a
    Python list; only the list operations below are known, anything else is out of reach and left to execution)."""

    def __init__(self, vc, pred, n, log):
        self.vc, self.pred, self.n, self.log = vc, pred, n, log

    @staticmethod
    def index(r):
        """register number of a register name (concrete or with a symbolic number)"""
        from engine import rt

        s = r[1:]
        t = rt._tokens()
        return t[s][0] if s in t else int(s)

    def __vc_contains__(self, x):
        return self.pred(self.index(x))

    __contains__ = __vc_contains__

    def __vc_len__(self):
        return self.n

    def __len__(self):
        from engine.sym import Unsupported

        raise Unsupported("length of an arbitrary list")

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, i):
        from engine.sym import Unsupported

        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        raise Unsupported("element of an arbitrary list")

    def copy(self):
        return AvailList(self.vc, self.pred, self.n, self.log)

    def pop(self, i=-1):
        if not self.n > 0:
            raise IndexError("pop from empty list")
        h = self.vc.int("some element", 0, N - 1)
        self.vc.assume(self.pred(h))
        self.drop(h)
        return f"R{h}"

    def remove(self, r):
        h = self.index(r)
        if not self.pred(h):
            raise ValueError("not in list")
        self.drop(h)

    def drop(self, h):
        old = self.pred
        self.pred = lambda g: self.vc.And(old(g), self.vc.Not(g == h))
        self.n = self.n - 1

    def insert(self, i, r):
        h = self.index(r)
        old = self.pred
        self.vc.prove("no register is listed as free twice", self.vc.Not(old(h)))
        self.pred = lambda g: self.vc.Or(old(g), g == h)
        self.n = self.n + 1

    def append(self, r):
        self.insert(0, r)

    def __iter__(self):
        from engine.sym import Unsupported

        raise Unsupported("iteration over an arbitrary list")


def manager(vc):
    """a register manager in an arbitrary state, and a predicate 'free' over its current state"""
    m = vc.call(vc.fn(RM))
    if vc.symbolic:
        import z3

        from engine import sym as S

        if not isinstance(vars(m).get("_available_registers"), list):
            raise S.Unsupported("register manager without a list of free registers")
        f = z3.Function("free", z3.IntSort(), z3.BoolSort())
        n = vc.int("number of free registers", 0, N)

        def pred(g):
            q = S.wrap(f(S.term(g)))
            vc.assume(vc.implies(q, n >= 1))
            return vc.And(q, g >= 0, g < N)

        m._available_registers = AvailList(vc, pred, n, [])
        return m, lambda: m._available_registers.pred, n
    k = vc.length("taken", 0, N)
    for _ in range(k):
        vc.call(m.allocate_register)
    regs = [f"R{i}" for i in range(N)]
    back = [r for r in regs if r not in free_of(m) and vc.bool("give back " + r)]
    for r in back:
        vc.call(m.free_register, r)

    def now():
        have = free_of(m)
        vc.prove("no register is listed as free twice", len(set(have)) == len(have), have)
        vc.prove("only real registers are listed", set(have) <= set(regs), have)
        return lambda g: f"R{g}" in have

    return m, now, N - k + len(back)


@unit("C11.allocate", "C11", targets=[f"{RM}.allocate_register"], fuzz=400, budget=60,
      assumptions=["AvailList models Python's list (prove mode)"])
def allocate(vc):
    """from any state: hands out a real register that was free, which then is not free; nothing else changes"""
    m, now, n = manager(vc)
    g = vc.int("any register", 0, N - 1)
    was = now()(g) if not vc.symbolic else now()
    o = vc.run(m.allocate_register)
    is_ = now()
    if o.ok:
        vc.prove("handed out only when one is free", n >= 1)
        vc.prove("is a register", isinstance(o.value, str) and o.value[:1] == "R", o.value)
        h = AvailList.index(o.value)
        if vc.symbolic:
            vc.prove("was free", was(h))
            vc.prove("is a hardware register", vc.And(h >= 0, h < N))
            vc.prove("is not free any more", vc.Not(is_(h)))
            vc.prove("nothing else changes", vc.implies(vc.Not(g == h), vc.eq(vc.ite(is_(g), 1, 0), vc.ite(was(g), 1, 0))))
        else:
            vc.prove("is a hardware register", 0 <= h < N)
            vc.prove("is not free any more", not is_(h))
            vc.prove("nothing else changes", g == h or is_(g) == was)
    else:
        vc.prove("rejected only when none is free", n == 0)
        vc.prove("rejected with an index error", isinstance(o.exc, IndexError), repr(o.exc))


@unit("C11.free", "C11", targets=[f"{RM}.free_register", "quantify_scheduler.backends.qblox.register_manager:"
                                  "_verify_valid_register"], fuzz=600, budget=60,
      assumptions=["AvailList models Python's list (prove mode)"])
def free(vc):
    """from any state: exactly the registers in use can be freed, and then only that one becomes free"""
    m, now, n = manager(vc)
    r = vc.choice("register", [f"R{i}" for i in range(N)] + BAD)
    real = r in [f"R{i}" for i in range(N)]
    g = vc.int("any register", 0, N - 1)
    st = now()
    was_r = st(int(r[1:])) if real else False
    was = st(g)
    o = vc.run(m.free_register, r)
    is_ = now()
    if o.ok:
        vc.prove("only registers that exist can be freed", real, r)
        if real:
            h = int(r[1:])
            vc.prove("only registers in use can be freed", vc.Not(was_r))
            vc.prove("is free afterwards", is_(h))
            vc.prove("nothing else changes", vc.Or(g == h, vc.eq(vc.ite(is_(g), 1, 0), vc.ite(was, 1, 0))))
    else:
        vc.prove("a register in use can be freed", was_r if real else True, (r, repr(o.exc)))
        vc.prove("nothing changes", vc.eq(vc.ite(is_(g), 1, 0), vc.ite(was, 1, 0)))
        vc.prove("rejected with an error", isinstance(o.exc, (ValueError, RuntimeError)), repr(o.exc))


class Stop(Exception):
    pass


@unit("C11.scopes", "C11", targets=[f"{QP}.temp_registers", f"{QP}.loop"], fuzz=400, budget=90,
      assumptions=["AvailList models Python's list (prove mode)"])
def scopes(vc):
    """temporary registers and loops return what they took, also when their body or the allocation fails"""
    m, now, n = manager(vc)

    def free_contract(self, r):
        """contract of free_register (decided by C11.free)"""
        h = AvailList.index(r)
        if vc.Or(h < 0, h >= N):
            raise ValueError("no such register")
        if self._available_registers.pred(h):
            raise RuntimeError("not in use")
        self._available_registers.insert(0, r)

    vc.stub(f"{RM}.free_register", free_contract)
    p = vc.call(vc.fn(QP), static_hw_properties=None, register_manager=m, align_fields=False)
    g = vc.int("any register", 0, N - 1)
    was = now()(g)
    kind = vc.choice("kind", ["temp", "loop", "both"])
    amount = vc.length("amount", 0, 3) if vc.symbolic else vc.choice("amount", [0, 1, 2, 3, 5, 63, 64, 65])
    fail = vc.bool("body fails")
    seen = []

    def use(x):
        hs = [AvailList.index(r) for r in ([x] if isinstance(x, str) else x)]
        for h in hs:
            for k in seen:
                vc.prove("registers in scope differ", vc.Not(h == k), (h, seen))
            seen.append(h)

    def body():
        if kind == "temp":
            with p.temp_registers(amount) as regs:
                use(regs)
                vc.prove("as many as asked for", len(regs) == amount)
                if fail:
                    raise Stop
        elif kind == "loop":
            with p.loop("a", 3) as r:
                use(r)
                if fail:
                    raise Stop
        else:
            with p.loop("a", 3) as r:
                use(r)
                with p.temp_registers(amount) as regs:
                    use(regs)
                    with p.loop("b", 2) as r2:
                        use(r2)
                        if fail:
                            raise Stop

    o = vc.run(body)
    need = amount if kind == "temp" else 1 if kind == "loop" else amount + 2
    vc.prove("succeeds when enough registers are free", vc.Or(o.ok, n < need, fail), repr(o.exc))
    vc.prove("rejected when too few are free", vc.Or(n >= need, not o.ok))
    is_ = now()(g)
    vc.prove("exactly the registers taken are free again", vc.eq(vc.ite(is_, 1, 0), vc.ite(was, 1, 0)))


@unit("C11.histories", "C11", modes=("fuzz",), targets=[RM], fuzz=400)
def histories(vc):
    """histories of allocations and frees through the public interface, against a set"""
    m = vc.call(vc.fn(RM))
    used = []
    for _ in range(vc.choice("steps", [5, 70, 150])):
        a = vc.choice("act", ["take", "take", "give", "give-any"])
        if a == "take":
            o = vc.run(m.allocate_register)
            vc.prove("refuses only when all registers are taken", o.ok == (len(used) < N), repr(o.exc))
            if o.ok:
                vc.prove("never hands a register out twice", o.value not in used, (o.value, used))
                used.append(o.value)
        elif a == "give" and used:
            r = used.pop(vc.length("which", 0, len(used) - 1))
            vc.prove("a register in use can be freed", vc.run(m.free_register, r).ok, r)
        elif a == "give-any":
            r = vc.choice("any", [f"R{i}" for i in range(N)] + BAD)
            o = vc.run(m.free_register, r)
            vc.prove("only registers in use can be freed", o.ok == (r in used), (r, used))
            if o.ok:
                used.remove(r)
        vc.prove("taken and free registers make up all registers",
                 sorted(used + free_of(m)) == sorted(f"R{i}" for i in range(N)))


def clobbers(text):
    """writes to a loop counter inside its loop"""
    from vlib import q1sim

    prog, labels = q1sim.parse(text)
    out = []
    for i, (ins, args, raw) in enumerate(prog):
        if ins == "loop":
            for ins2, args2, raw2 in prog[labels[args[1][1:]]:i]:
                if args2 and args2[-1] == args[0] and ins2 in ("move", "add", "sub", "not", "and", "or", "xor", "asl",
                                                               "asr") or ins2 == "loop" and args2[0] == args[0]:
                    out.append((raw.strip(), raw2.strip()))
    return out


@unit("C11.programs", "C11", modes=("fuzz",), targets=[RM, f"{QP}.loop"], fuzz=500, shards=2, budget=100,
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "bounded: random schedules"])
def programs(vc):
    """no program writes a loop counter inside its loop; deep nesting works until the registers run out"""
    from vlib.qprop import Case

    c = Case(vc, amp=0.5, long_ok=False, min_amp=0.02, depth=vc.choice("depth", [2, 3]), max_slots=4, big=True,
             kinds=("pulse", "acq", "offset", "timetag"), acq_protocols=(
                 "SSBIntegrationComplex", "ThresholdedAcquisition", "NumericalSeparatedWeightedIntegration"))
    for pc, (_e, a, q) in c.progs.items():
        bad = clobbers(q.sequence["program"])
        vc.prove("loop counters are left alone inside their loops", not bad, (pc, bad[:2]))
    c.well_formed()
    c.total("loops run as often as they should")
    c.acquisitions()


@unit("C11.depth", "C11", modes=("fuzz",), targets=[RM, f"{QP}.loop"], fuzz=60, shards=2, budget=100,
      assumptions=["Q1ASM interpreter vlib/q1sim.py", "bounded: loops nested up to 70 deep"])
def depth(vc):
    """nested loops: compiled correctly, or rejected once there are more of them than registers"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from vlib import q1sim, qcheck, qhw
    from vlib.qprop import config

    base, header = qcheck.calibrate()
    n = vc.choice("levels", [1, 3, 30, 55, 60, 61, 62, 63, 64, 65, 66, 70])
    s = Schedule("inner")
    s.add(pl.SquarePulse(amp=0.5, duration=20e-9, port="q0:mw", clock="q0.01"))
    s.add(pl.IdlePulse(20e-9))
    times, dur = [0], 40
    for k in range(n):
        reps = 1
        if len(times) < 200 and vc.bool("twice"):
            reps = 2
        times = [t + j * dur for j in range(reps) for t in times]
        dur = reps * dur + 40
        o = qhw.new_schedule() if k == n - 1 else Schedule("level")
        o.add(LoopOperation(body=s, repetitions=reps))
        o.add(pl.IdlePulse(40e-9))
        s = o
    r = vc.run(qhw.compile_, s, None, config_=config())
    if n <= 55:
        vc.prove("few loops are accepted", r.ok, repr(r.exc)[:300])
    if n > N:
        vc.prove("more loops than registers are rejected", not r.ok)
    if r.ok:
        q = qcheck.seq_of(r.value, ("q0:mw", "q0.01"))
        tr = q1sim.run(q.sequence["program"])
        got = [e.t - base for e in tr.events if e.kind == "play"]
        vc.prove("no problems", not tr.problems, tr.problems[:3])
        vc.prove("plays at the right times", got == times, (got[:5], times[:5]))


@unit("C11.inline", "C11", modes=("fuzz",), targets=[INJ], fuzz=80, budget=60)
def inline(vc):
    """registers named in injected assembly are mapped one to one to registers not in use elsewhere, then returned"""
    from quantify_scheduler.backends.types.qblox import OpInfo

    m, now, n = manager(vc)
    p = vc.call(vc.fn(QP), static_hw_properties=None, register_manager=m, align_fields=False)
    before = free_of(m)
    k = vc.length("registers", 1, 6)
    names = [f"R{vc.length('name', 0, 63)}" for _ in range(k)]
    lines = [f"move {i}, {r}" for i, r in enumerate(names)] + [f"add {r}, {names[0]}, {r}" for r in names]
    op = OpInfo("inj", {"program": "\n".join(lines), "duration": 0.0, "waveforms": {}, "safe_labels": True}, 0.0)
    st = vc.fn(INJ)(op)
    o = vc.run(st.insert_qasm, p)
    if not o.ok:
        vc.prove("rejected only when too few registers are free", len(before) < len(set(names)), repr(o.exc))
        return
    used = [str(i[2]).split(",")[-1].strip() for i in p.instructions if i[1].strip() == "move"]
    mp = {}
    for a, b in zip(names, used):
        vc.prove("one name is one register", mp.setdefault(a, b) == b, (names, used))
    vc.prove("different names are different registers", len(set(mp.values())) == len(mp), mp)
    vc.prove("uses only free registers", set(used) <= set(before), (used, before))
    vc.prove("registers are returned", sorted(free_of(m)) == sorted(before))
