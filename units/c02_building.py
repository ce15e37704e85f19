"""C02/C10: the program builder's time accounting equals the time the emitted instructions take (proofs)."""
from engine.core import Fake, unit
from vlib.symprog import Timing

QP = "quantify_scheduler.backends.qblox.qasm_program:QASMProgram"
OH = "quantify_scheduler.backends.qblox.operation_handling"


def program(vc, elapsed=None):
    from quantify_scheduler.backends.qblox.register_manager import RegisterManager

    p = vc.call(vc.fn(QP), static_hw_properties=None, register_manager=RegisterManager(), align_fields=False)
    if elapsed is not None:
        p.elapsed_time = elapsed
    return p


def free_registers(p):
    return sorted(map(str, p.register_manager.available_registers))


def size(vc, name, lo, hi):
    """integer with values around the chunk size of long waits"""
    def g(r):
        k = r.choice([0, 1, 1, 2, 4, 5, 7, 20])
        return max(lo, min(hi, k * r.choice([65532, 65535, 65536]) + r.choice([0, 1, 3, 4, 5, 8, -1, -4, r.randint(0, 70000)])))
    return vc.int(name, lo, hi, gen=g)


@unit("C02.auto_wait", "C02", targets=[f"{QP}.auto_wait"], modes=("prove", "fuzz"), fuzz=600, budget=120)
def auto_wait(vc):
    """emits waits adding up to the requested time, each within range; the elapsed time follows"""
    w = size(vc, "wait", -10, 10**12)
    e0 = vc.int("elapsed", 0, 10**9)
    counted = vc.choice("counted", [True, False])
    p = program(vc, e0)
    regs = free_registers(p)
    n0 = p.conditional_manager.num_real_time_instructions
    o = vc.run(p.auto_wait, w, counted)
    if o.ok:
        t = Timing(vc, p.instructions)
        vc.prove("accepted only when not negative", w >= 0)
        vc.prove("program waits for the requested time", t.taken == w)
        vc.prove("well formed", not t.problems, t.problems)
        vc.prove("waits are within range", t.in_range())
        vc.prove("elapsed time", p.elapsed_time == e0 + (w if counted else 0))
        vc.prove("registers are returned", free_registers(p) == regs)
        vc.prove("real-time instructions counted",
                 p.conditional_manager.num_real_time_instructions >= n0)
    else:
        vc.prove("rejects only negative times", w < 0)
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))


class Info(Fake):
    def __init__(self, timing, name="op", param=False, **kw):
        self.timing = timing
        self.name = name
        self.is_parameter_instruction = param
        self.data = kw

    def __repr__(self):
        return self.name


@unit("C02.wait_till_start", "C02", targets=[f"{QP}.wait_till_start_operation"], modes=("prove", "fuzz"), fuzz=600,
      budget=120)
def wait_till_start(vc):
    """afterwards the program is exactly at the operation's start; operations that start too late are rejected"""
    k = size(vc, "start", 0, 10**12)
    e0 = size(vc, "elapsed", 0, 10**12)
    name = vc.choice("operation", ["op", "IdlePulse"])
    param = vc.choice("parameter", [False, True])
    p = program(vc, e0)
    t0 = k * vc.lit("1e-9") if vc.symbolic else k * 1e-9
    o = vc.run(p.wait_till_start_operation, Info(t0, name, param))
    t = Timing(vc, p.instructions)
    if o.ok:
        vc.prove("program reaches the start of the operation", vc.Or(e0 + t.taken == k, vc.And(e0 > k, name == "IdlePulse")))
        vc.prove("never runs backwards", vc.Or(vc.And(e0 <= k, e0 + t.taken == k), len(p.instructions) == 0))
        vc.prove("elapsed time equals program time", p.elapsed_time == e0 + t.taken)
        vc.prove("waits are within range", t.in_range())
    else:
        vc.prove("rejected only when too late", e0 > k)
        vc.prove("rejects with ValueError", isinstance(o.exc, ValueError))


@unit("C02.loop", "C02", targets=[f"{QP}.loop", f"{QP}.elapsed_time"], modes=("prove", "fuzz"), fuzz=400, budget=120)
def loop(vc):
    """a loop takes repetitions times its body, nested loops included, and returns its register"""
    e0 = vc.int("elapsed", 0, 10**9)
    n, m = vc.int("outer repetitions", 1, 10**6), vc.int("inner repetitions", 1, 10**6)
    a, b, c = (vc.int(x, 1, 65532) for x in ("before", "inner", "after"))
    nested = vc.choice("nested", [False, True])
    p = program(vc, e0)
    regs = free_registers(p)

    def build():
        with p.loop("outer", n) as r1:
            p.auto_wait(a)
            if nested:
                with p.loop("inner", m) as r2:
                    vc.prove("two loops use two registers", str(r1) != str(r2))
                    p.auto_wait(b)
            p.auto_wait(c)

    vc.call(build)
    t = Timing(vc, p.instructions)
    vc.prove("well formed", not t.problems, t.problems)
    vc.prove("program time", t.taken == n * (a + c + (m * b if nested else 0)))
    vc.prove("elapsed time equals program time", p.elapsed_time == e0 + t.taken)
    vc.prove("registers are returned", free_registers(p) == regs)


def conditional_strategy(vc, op="OR", address=None):
    from quantify_scheduler.backends.qblox.conditional import FeedbackTriggerCondition, FeedbackTriggerOperator

    cls = vc.fn(f"{OH}.virtual:ConditionalStrategy")
    return cls(Info(0.0), FeedbackTriggerCondition(enable=True, operator=FeedbackTriggerOperator[op],
                                                   addresses=[address or vc.choice("address", [1, 3, 15])]))


@unit("C10.section", ["C10", "C02"], targets=[f"{QP}.conditional", f"{QP}.auto_wait", f"{QP}.loop"],
      modes=("prove", "fuzz"), fuzz=600, budget=200)
def section(vc):
    """taken or not, a conditional section takes the same time and exactly what is accounted for"""
    e0 = vc.int("elapsed", 0, 10**9)
    shape = vc.choice("content", ["wait", "two waits", "long wait", "loop", "wait and loop"])
    p = program(vc, e0)
    cond = conditional_strategy(vc)
    a, b = vc.int("first", 4, 65532), vc.int("second", 4, 65532)
    many = "loop" in shape and vc.bool("many iterations of a short body")
    if many:
        a = b = vc.choice("short", [4, 7, 100])
    n = vc.int("repetitions", 1, 10**6 if vc.symbolic else 3000 if many else 30)
    long = size(vc, "long", 70000, 600000)
    body = {"wait": a, "two waits": a + b, "long wait": long, "loop": n * a, "wait and loop": a + n * b}[shape]

    def build():
        with p.conditional(cond):
            if shape == "long wait":
                p.auto_wait(long)
            if shape in ("wait", "two waits", "wait and loop"):
                p.auto_wait(a)
            if shape == "two waits":
                p.auto_wait(b)
            if shape == "loop":
                with p.loop("l", n):
                    p.auto_wait(a)
            if shape == "wait and loop":
                with p.loop("l", n):
                    p.auto_wait(b)

    if vc.symbolic:
        vc.assume(n <= (10**5 if many else 20))
    o = vc.run(build)
    if not o.ok:
        vc.prove("accepted", False, repr(o.exc))
        return
    t = Timing(vc, p.instructions)
    vc.prove("well formed", not t.problems, t.problems)
    vc.prove("takes at least the body", t.taken >= body)
    vc.prove("both outcomes take the same time", t.taken == t.untaken)
    vc.prove("elapsed time equals program time", p.elapsed_time == e0 + t.taken)
    vc.prove("instructions are within range", t.in_range())
    vc.prove("unconditional again", t.cond is None)
    c = [x for x in t.conds if x[0] == 1]
    vc.prove("tests the requested outcome and its opposite on one mask",
             len(c) == 2 and c[0][1] == c[1][1] == cond.trigger_condition.mask and c[0][2] == 0 and c[1][2] == 1, c)
    vc.prove("a later section is possible", not p._lock_conditional)


STRATEGIES = [
    ("virtual:IdleStrategy", {}), ("virtual:NcoPhaseShiftStrategy", {"phase_shift": 1}),
    ("virtual:NcoResetClockPhaseStrategy", {"reset_clock_phase": True}),
    ("virtual:AwgOffsetStrategy", {"offset_path_I": 0.1, "offset_path_Q": 0.2}),
    ("virtual:ResetFeedbackTriggersStrategy", {}), ("virtual:UpdateParameterStrategy", {"instruction": "upd_param"}),
    ("virtual:TimestampStrategy", {"timestamp": True}),
    ("pulses:GenericPulseStrategy", {"wf_func": "x"}),
    ("acquisitions:SquareAcquisitionStrategy", {}), ("acquisitions:WeightedAcquisitionStrategy", {}),
    ("acquisitions:TriggerCountAcquisitionStrategy", {}), ("acquisitions:TimetagAcquisitionStrategy", {}),
    ("acquisitions:ScopedTimetagAcquisitionStrategy", {}),
]


def strategy_case(vc, p):
    """(strategy of any kind set up for program p, its duration)"""
    from quantify_scheduler.backends.types.qblox import OpInfo
    from quantify_scheduler.enums import BinMode

    path, data = vc.choice("strategy", STRATEGIES)
    d = size(vc, "duration", 12, 10**9)
    data = dict(data, duration=d * (vc.lit("1e-9") if vc.symbolic else 1e-9), port="p", clock="c")
    if path.startswith("virtual:Reset"):
        data["duration"] = 4e-9
    if path.startswith("acquisitions"):
        mode = vc.choice("bin mode", [BinMode.APPEND, BinMode.AVERAGE])
        data.update(bin_mode=mode, acq_channel="ch", acq_index=0, protocol="x", fine_start_delay=0,
                    fine_end_delay=vc.choice("fine end", [0, 1e-9]))
    info = OpInfo(name="op", data=data, timing=0.0)
    cls = vc.fn(f"{OH}.{path}")
    st = vc.call(cls, info, "complex_output_0") if path.startswith("pulses") else vc.call(cls, info)
    if path.startswith("pulses"):
        null = vc.choice("null path", [(0, 1), (None, 0), (0, None), (None, None)])
        st._waveform_index0, st._waveform_index1 = null
        st._amplitude_path_I = st._amplitude_path_Q = 0.5
        st._waveform_len = 10
    if path.startswith("acquisitions"):
        st.qblox_acq_index, st.qblox_acq_bin = 0, 5
        st.waveform_index0, st.waveform_index1 = 0, 1
        if mode == BinMode.APPEND:
            st.bin_idx_register = p.register_manager.allocate_register()
            st.qblox_acq_bin = None
    return path, st, d


@unit("C02.strategies", "C02", targets=[f"{OH}.{s.replace(':', ':')}.insert_qasm" for s, _ in STRATEGIES],
      modes=("prove", "fuzz"), fuzz=600, budget=200)
def strategies(vc):
    """every operation's instructions take exactly the time added to the elapsed time, in every bin mode"""
    e0 = vc.int("elapsed", 0, 10**9)
    p = program(vc, e0)
    path, st, d = strategy_case(vc, p)
    regs = free_registers(p)
    vc.call(st.insert_qasm, p)
    t = Timing(vc, p.instructions)
    vc.prove("well formed", not t.problems, t.problems)
    vc.prove("elapsed time equals program time", p.elapsed_time == e0 + t.taken)
    vc.prove("instructions are within range", t.in_range())
    vc.prove("registers are returned", free_registers(p) == regs)
    if path.startswith("acquisitions:T") or path.startswith("acquisitions:Sc"):
        vc.prove("the window is as long as the acquisition", t.taken == d)


@unit("C10.strategies", "C10", targets=[f"{OH}.{s}.insert_qasm" for s, _ in STRATEGIES] + [
    "quantify_scheduler.backends.qblox.conditional:ConditionalManager.update", f"{QP}.conditional"],
      modes=("prove", "fuzz"), fuzz=600, budget=200)
def section_strategies(vc):
    """every operation inside a conditional section takes the same time taken or not"""
    e0 = vc.int("elapsed", 0, 10**9)
    p = program(vc, e0)
    cond = conditional_strategy(vc, address=2)
    path, st, d = strategy_case(vc, p)
    if vc.symbolic:
        vc.assume(d <= 100000)  # longer waits: C10.section
    first, last = vc.int("wait before", 4, 65532), vc.int("wait after", 4, 65532)

    def go():
        with p.conditional(cond):
            p.auto_wait(first)
            p.conditional_manager.update(st)
            st.insert_qasm(p)
            p.auto_wait(last)

    vc.call(go)
    t = Timing(vc, p.instructions)
    vc.prove("well formed", not t.problems, t.problems)
    vc.prove("both outcomes take the same time", t.taken == t.untaken)
    vc.prove("elapsed time equals program time", p.elapsed_time == e0 + t.taken)
    vc.prove("instructions are within range", t.in_range())
    vc.prove("unconditional again", t.cond is None)


CA = "quantify_scheduler.backends.qblox.compiler_abc:SequencerCompiler"
SHAPES = {
    "three operations": "ooo",
    "loop with operation before, inside and after": "oL1or1o",
    "nested loops": "L1oL2or2or1o",
    "conditional": "oCorCo",
    "loop in conditional": "CoL1or1rCo",
    "conditional in loop": "L1oCorCor1o",
}


@unit("C02.sequence", ["C02", "C10"], targets=[f"{CA}._parse_operations"], modes=("bounded", "fuzz"), fuzz=600,
      budget=240)
def sequence(vc):
    """a list of operations with control flow: every operation starts at its scheduled time in every iteration"""
    from quantify_scheduler.backends.qblox.operation_handling import virtual as vs

    shape = SHAPES[vc.choice("shape", list(SHAPES))]
    p = program(vc)
    loops, starts, ops = {}, [], []
    now = 0
    stack = []
    sym = vc.symbolic

    def at(t):
        return t * vc.lit("1e-9") if sym else t * 1e-9

    class Plain(vs.IdleStrategy):
        def __init__(self, info, k):
            super().__init__(info)
            self.k = k

        def insert_qasm(self, q):
            q.emit("upd_param", 4)
            q.elapsed_time += 4
            starts[self.k] = len(q.instructions) - 1

    i = 0
    expected = []
    while i < len(shape):
        c = shape[i]
        if c == "o":
            now = now + vc.int(f"gap{len(ops)}", 4 if sym else 0, 6 * 10**4)
            info = Info(at(now), "op", False)
            info.is_real_time_io_operation = True
            ops.append(Plain(info, len(expected)))
            starts.append(None)
            expected.append((now, list(stack)))
            now = now + 4
        elif c == "L":
            i += 1
            now = now + vc.int("gap", 4 if sym else 0, 6 * 10**4)
            n = vc.choice("reps" + shape[i], [1, 2, 7])
            ops.append(vs.LoopStrategy(Info(at(now), "Loop", repetitions=n)))
            stack.append(("L", now, n))
        elif c == "C":
            now = now + vc.int("gap", 4 if sym else 0, 6 * 10**4)
            st = conditional_strategy(vc, address=1)
            st.operation_info.timing = at(now)
            ops.append(st)
            stack.append(("C", now, 1))
        elif c == "r":
            i += 1
            kind, t0, n = stack.pop()
            tail = vc.int("tail", 4 if sym else 0, 6 * 10**4)
            end = now + tail
            ops.append(vs.ControlFlowReturnStrategy(Info(at(end), "Return")))
            now = t0 + n * (end - t0)
            if kind == "C":
                now = now + 4000
        i += 1
    cls = vc.fn(CA)

    class Self(Fake):
        ParseOperationStatus = cls.ParseOperationStatus

        def _parse_operations(self, **k):
            return cls._parse_operations(self, **k)

        def _insert_qasm(self, op, q):
            op.insert_qasm(q)

    o = vc.run(lambda: Self()._parse_operations(operations_iter=iter(ops), qasm=p))
    vc.prove("accepted", o.ok, repr(o.exc)[:300])
    if not o.ok:
        return
    t = Timing(vc, p.instructions)
    vc.prove("well formed", not t.problems, t.problems)
    vc.prove("instructions are within range", t.in_range())
    vc.prove("both outcomes take the same time", t.taken == t.untaken)
    vc.prove("elapsed time equals program time", p.elapsed_time == t.taken)
    for k, (when, st) in enumerate(expected):
        # time of the first execution: loops that are still open have run once
        tt = Timing(vc, p.instructions[:starts[k]])
        vc.prove("operation starts at its time", tt.taken == when)


class Operations(Fake):
    """any iterator over operations: the first operation is any operation, `at_next` is called for the next one"""

    def __init__(self, first, at_next):
        self.first = first
        self.at_next = at_next

    def __iter__(self):
        return self

    def __next__(self):
        first, self.first = self.first, None
        if first is None:
            return self.at_next()
        return first()


class End(Exception):
    """the path ends: the obligations of one step are proved"""


@unit("C02.parse", ["C02", "C10"], targets=[f"{CA}._parse_operations", f"{QP}.conditional", f"{QP}.loop",
                                           f"{QP}.wait_till_start_operation", f"{QP}.elapsed_time"],
      modes=("prove", "fuzz"), fuzz=600, budget=400)
def parse(vc):
    """one step from any state: the accounted time stays the program's time, taken or not; every operation at its time

    Contract of `_parse_operations`: some operations are inserted, the elapsed time advances by the time the inserted
    instructions take, the number of counted real-time instructions by the number executed, each of which takes at
    least 4 ns; inside a conditional section and outside. The recursive calls (bodies of loops and sections) are
    replaced by this contract, and the loop over the operations is cut at the iterator.
    """
    from quantify_scheduler.backends.qblox.operation_handling import virtual as vs

    p = program(vc, vc.int("elapsed", 0, 10**12))
    e0 = p.elapsed_time
    regs = free_registers(p)
    inside = vc.choice("inside a section", [False, True])
    p._lock_conditional = inside
    p.conditional_manager.num_real_time_instructions = vc.int("counted before", 0, 10**9)
    n0 = p.conditional_manager.num_real_time_instructions
    what = vc.choice("operation", ["plain", "loop", "section", "return", "none"])
    k = size(vc, "start", 0, 10**12)
    t0 = k * (vc.lit("1e-9") if vc.symbolic else 1e-9)
    reps = vc.int("repetitions", 1, 10**9)
    b = size(vc, "time of the body", 0, 10**12 if vc.symbolic else 10**6)
    c = vc.int("instructions of the body", 0, 10**12 if vc.symbolic else 1000)
    real_time = what == "plain" and vc.choice("real-time operation", [False, True])
    if not vc.symbolic:
        b = max(b, 4 * (c + real_time))
    vc.assume(b >= 4 * (c + real_time))
    at, seen = [], []

    class Plain(vs.IdleStrategy):
        """any operation: see C10.strategies for the instructions of each"""

        def insert_qasm(self, q):
            at.append(Timing(vc, q.instructions).taken)
            q.elapsed_time += b
            q.conditional_manager.num_real_time_instructions += c
            q.instructions.append(["", "vc_body", (b, c + real_time), ""])

    def operation():
        if what == "plain":
            info = Info(t0, "op", False)
            info.is_real_time_io_operation = real_time
            return Plain(info)
        if what == "loop":
            return vs.LoopStrategy(Info(t0, "Loop", repetitions=reps))
        if what == "section":
            s = conditional_strategy(vc, address=2)
            s.operation_info.timing = t0
            return s
        if what == "return":
            return vs.ControlFlowReturnStrategy(Info(t0, "Return"))
        raise StopIteration

    def check():
        t = Timing(vc, p.instructions)
        vc.prove("well formed", not t.problems, t.problems)
        vc.prove("the elapsed time advances by the program's time", p.elapsed_time == e0 + t.taken)
        vc.prove("never backwards", t.taken >= 0)
        if inside:
            n = p.conditional_manager.num_real_time_instructions
            vc.prove("instructions counted", n == n0 + t.count)
            vc.prove("at least 4 ns per instruction, or a wait the hardware does not have",
                     vc.Or(t.taken >= 4 * (n - n0), vc.Not(t.in_range(4))))
        else:
            vc.prove("takes the same time taken or not", t.taken == t.untaken)
        vc.prove("unconditional, or in the same section", t.cond is None and p._lock_conditional == inside)
        vc.prove("instructions are within range", t.in_range())
        vc.prove("registers are returned", free_registers(p) == regs)
        for x in at:
            vc.prove("the operation starts at its time", e0 + x == k)

    def at_next():
        check()
        raise End

    ops = Operations(operation, at_next)
    cls = vc.fn(CA)

    class Self(Fake):
        ParseOperationStatus = cls.ParseOperationStatus

        def _parse_operations(self, operations_iter, qasm):
            if operations_iter is not ops or qasm is not p:
                vc.prove("the same operations and program", False)
            seen.append(1)
            at.append(Timing(vc, p.instructions).taken)
            Plain.insert_qasm(None, p)
            at.pop()
            return cls.ParseOperationStatus.EXITED_CONTROL_FLOW

        def _insert_qasm(self, op, q):
            op.insert_qasm(q)

    o = vc.run(lambda: cls._parse_operations(Self(), operations_iter=ops, qasm=p))
    if o.ok:
        vc.prove("ends at a return or at the end of the operations", what in ("return", "none"))
        check()
    elif isinstance(o.exc, End):
        vc.prove("goes on after an operation", what not in ("return", "none"))
        vc.prove("bodies are inserted once", len(seen) == (what in ("loop", "section")) and
                 (what != "plain" or len(at) == 1))
    else:
        vc.prove("rejects only what starts too late, or nested sections",
                 vc.Or(k < e0, inside and what == "section"), repr(o.exc)[:200])


MODULES = {
    "analog": "quantify_scheduler.backends.qblox.analog:AnalogSequencerCompiler",
    "timetag": "quantify_scheduler.backends.qblox.timetag:TimetagSequencerCompiler",
}


@unit("C02.repetitions", ["C02", "C12", "C10"], targets=[
    f"{CA}.generate_qasm_program", f"{CA}._get_latency_correction_ns",
    *(f"{m}.{f}" for m in MODULES.values() for f in ("_write_pre_wait_sync_instructions", "_write_repetition_loop_header"))],
      modes=("prove", "fuzz"), fuzz=400, budget=300)
def repetitions(vc):
    """the first repetition starts its delay after 4 ns, every repetition lasts the header and the schedule's time

    The operations (`_parse_operations`) are replaced by their contract, see C02.parse.
    """
    lat = vc.int("delay (ns)", 0, 10**6)
    rounding = vc.choice("off the grid", ["0", "0.3", "-0.3"])
    delay = (lat + vc.lit(rounding)) * vc.lit("1e-9") if vc.symbolic else (lat + float(rounding)) * 1e-9
    reps = vc.int("repetitions", 1, 10**9)
    total = size(vc, "time of the schedule", 0, 10**12)
    body = size(vc, "time of the operations", 0, 10**12)
    count = vc.int("instructions", 0, 10**9)
    kind = vc.choice("module", list(MODULES))
    threshold = kind == "timetag" and vc.choice("threshold", [False, True])
    latch = vc.choice("latch", [False, True])
    caught, marks = [], []
    cls = vc.fn(MODULES[kind])

    def hook(q):
        caught.extend(q.instructions)
        q.instructions[:] = []  # the text is not part of this contract

    def wait(q, wait_time, count_as_elapsed_time=True, comment=None):
        if wait_time < 0:
            raise ValueError
        q.instructions.append(["", "vc_body", (wait_time, 1), ""])
        if count_as_elapsed_time:
            q.elapsed_time = q.elapsed_time + wait_time

    vc.stub(f"{QP}.auto_wait", wait)  # C02.auto_wait

    class Settings(Fake):
        thresholded_acq_trigger_write_en = threshold
        thresholded_acq_trigger_write_threshold_low = thresholded_acq_trigger_write_threshold_high = 7
        channel_name = "complex_output_0"

    class Config(Fake):
        hardware_description = None

    class Parent(Fake):
        max_number_of_instructions = 10**9
        instrument_cfg = Config()
        name = "module"

    class Self(Fake):
        static_hw_properties = None
        name = "seq0"
        latency_correction = delay
        parent = Parent()
        settings = _settings = Settings()
        qasm_hook_func = staticmethod(hook)

        def _write_pre_wait_sync_instructions(self, q):
            cls._write_pre_wait_sync_instructions(self, q)
            marks.append(len(q.instructions))

        def _write_repetition_loop_header(self, q):
            n = len(q.instructions)
            cls._write_repetition_loop_header(self, q)
            marks.append((n, len(q.instructions)))

        def _get_latency_correction_ns(self, x):
            return cls._get_latency_correction_ns(self, x)

        def _initialize_acquisition_qblox_values_append_not_in_control_flow(self, *a):
            pass

        _initialize_acquisition_qblox_values_non_append_or_in_control_flow = \
            _initialize_acquisition_qblox_values_append_not_in_control_flow

        def _assert_total_play_time_on_nco_grid(self):
            pass

        def _parse_operations(self, operations_iter, qasm):
            vc.prove("a repetition starts at time zero", qasm.elapsed_time == 0)
            vc.prove("not in a section", not qasm._lock_conditional)
            vc.prove("all operations", list(operations_iter) == operations)
            qasm.elapsed_time += body
            qasm.instructions.append(["", "vc_body", (body, count), ""])

    info = Info(0.0, "op", False, feedback_trigger_address=3 if latch else None)
    info.is_acquisition = info.is_real_time_io_operation = False

    class Op(Fake):
        operation_info = info

    operations = [Op()]
    me = Self()
    me.op_strategies = operations
    from quantify_scheduler.backends.qblox.register_manager import RegisterManager

    me.register_manager = RegisterManager()
    regs = sorted(map(str, me.register_manager.available_registers))
    o = vc.run(lambda: vc.fn(CA).generate_qasm_program(
        me, ordered_op_strategies=operations, align_qasm_fields=False, repetitions=reps,
        total_sequence_time=total * (vc.lit("1e-9") if vc.symbolic else 1e-9)))
    if not o.ok:
        vc.prove("rejects only operations longer than the schedule", body > total, repr(o.exc)[:200])
        return
    vc.prove("rejects operations longer than the schedule", body <= total)
    t = Timing(vc, caught)
    vc.prove("well formed", not t.problems, t.problems)
    sync = [i for i, x in enumerate(caught) if str(x[1]).strip() == "wait_sync"]
    vc.prove("one synchronization, before all repetitions, after what depends on the module",
             len(sync) == 1 and marks[0] <= sync[0] < marks[1][0], (sync, marks))
    first = Timing(vc, caught[sync[0] + 1:marks[1][0]])
    vc.prove("the repetitions start at the same time on all modules, plus the delay", first.taken == 8 + lat)
    header = Timing(vc, caught[marks[1][0]:marks[1][1]])
    vc.prove("the header takes the same time on all modules", header.taken == 4)
    loops = [i for i, x in enumerate(caught) if str(x[1]).strip() == "loop"]
    stop = [i for i, x in enumerate(caught) if str(x[1]).strip() == "stop"]
    whole = Timing(vc, caught[sync[0] + 1:])
    vc.prove("every repetition takes the header and the time of the schedule",
             whole.taken == 8 + lat + reps * (4 + total))
    vc.prove("taken or not", whole.taken == whole.untaken)
    vc.prove("waits are within range", t.in_range())
    vc.prove("stops after the last repetition", len(stop) == 1 and stop[0] == len(caught) - 1 and
             bool(loops) and loops[-1] == stop[0] - 1)
    vc.prove("the header is part of each repetition", marks[1][0] > 0 and
             str(caught[marks[1][0] - 1][0]).rstrip(":") == str(caught[loops[-1]][2]).split("@")[-1].strip(),
             caught)
    vc.prove("the latch is set when it is used", latch == any(
        str(x[1]).strip() == "set_latch_en" for x in caught[:sync[0]]))
    vc.prove("registers are returned", sorted(map(str, me.register_manager.available_registers)) == regs)
