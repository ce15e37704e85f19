"""Timing of emitted instructions with symbolic operands (structured loops, conditional sections)."""
from vlib.q1sim import ARITY, REALTIME


def operand(vc, a):
    if vc.symbolic:
        from engine import rt

        a = rt.decode(a)
    if isinstance(a, str):
        if a.lstrip("-").isdigit():
            return int(a)
        return a
    return a


class Timing:
    """taken/untaken: total time when the tested outcome is / is not there; count: real-time instructions executed"""

    def __init__(self, vc, instructions):
        self.vc = vc
        self.regs = {}
        self.durations = []  # of wait, others
        self.conds = []
        self.taken = self.untaken = self.count = 0
        self.problems = []
        self.cond = None
        marks = {}
        for label, ins, args, *_ in instructions:
            if label:
                marks[label.rstrip(":")] = (self.taken, self.untaken, self.count)
            if ins == "vc_body":  # stands for instructions of a called function: (time, instructions executed)
                b, c = args
                self.taken = self.taken + b
                self.untaken = self.untaken + (b if self.cond is None else c * self.cond[1])
                self.count = self.count + c
                continue
            ops = [operand(vc, a.strip()) for a in args.split(",")] if args else []
            ins = ins.strip() if isinstance(ins, str) else ins
            if not ins or ins == "nop":
                continue
            if ins == "move":
                self.regs[ops[1]] = ops[0]
            elif ins == "loop":
                m = marks.get(ops[1].lstrip("@"))
                if m is None or ops[0] not in self.regs:
                    self.problems.append(f"loop without start: {args}")
                    continue
                n = self.regs[ops[0]]
                self.taken = m[0] + n * (self.taken - m[0])
                self.untaken = m[1] + n * (self.untaken - m[1])
                self.count = m[2] + n * (self.count - m[2])
                self.regs[ops[0]] = 0
            elif ins == "set_cond":
                self.conds.append(ops)
                self.cond = (ops[2], ops[3]) if ops[0] == 1 else None
            elif ins in REALTIME:
                if len(ops) != ARITY[ins]:
                    self.problems.append(f"{ins} {args}")
                d = ops[-1]
                d = self.regs.get(d, d) if isinstance(d, str) else d
                self.durations.append((ins, d))
                self.count = self.count + 1
                if self.cond is None:
                    self.taken = self.taken + d
                    self.untaken = self.untaken + d
                elif self.cond[0] % 2 == 0:
                    self.taken = self.taken + d
                    self.untaken = self.untaken + self.cond[1]
                else:
                    self.taken = self.taken + self.cond[1]
                    self.untaken = self.untaken + d
            elif ins not in ARITY and ins not in ("add", "sub", "jmp", "jge", "jlt"):
                self.problems.append(f"unknown instruction {ins}")

    def in_range(self, lo=1):
        vc = self.vc
        return vc.And(*[vc.And(d >= (lo if i == "wait" else 4), d <= 65535) for i, d in self.durations], True)
