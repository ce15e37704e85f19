"""Reference interpreter of Q1ASM sequencer programs (written from the Qblox Q1ASM documentation).

Parameter instructions (gain, offset, phase, frequency, marker, digital) are latched and take effect at the next
real-time instruction.  While a condition set by `set_cond` is false, every real-time instruction that takes time is
replaced by a wait of the else duration and latched parameters are not set.
"""
from __future__ import annotations

import re

LINE = re.compile(r"^\s*(?:(?P<label>[A-Za-z_]\w*):)?\s*(?P<ins>[a-z_]+)?\s*(?P<args>[^#]*?)\s*(?:#.*)?$")
NUM_REGISTERS = 64
MAX_IMMEDIATE = 65535


class BadProgram(Exception):
    pass


class Event:
    __slots__ = ("t", "kind", "args", "state", "rep")

    def __init__(self, t, kind, args, state):
        self.t, self.kind, self.args, self.state = t, kind, args, state

    def __repr__(self):
        return f"{self.kind}{self.args}@{self.t}"


def parse(text):
    prog, labels = [], {}
    for raw in text.splitlines():
        if not raw.strip():
            continue
        m = LINE.match(raw)
        if not m:
            raise BadProgram(f"not Q1ASM: {raw!r}")
        if m["label"]:
            if m["label"] in labels:
                raise BadProgram(f"duplicate label {m['label']}")
            labels[m["label"]] = len(prog)
        if m["ins"]:
            args = [a.strip() for a in m["args"].split(",")] if m["args"] else []
            prog.append((m["ins"], args, raw))
    return prog, labels


REALTIME = {"play", "acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags", "wait", "upd_param", "wait_sync",
            "latch_rst", "upd_thres"}
UPDATES = {"play", "acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags", "upd_param"}
ARITY = {"play": 3, "acquire": 3, "acquire_weighed": 5, "acquire_ttl": 4, "acquire_timetags": 5, "wait": 1,
         "upd_param": 1, "wait_sync": 1, "latch_rst": 1, "upd_thres": 3, "set_mrk": 1, "set_awg_gain": 2,
         "set_awg_offs": 2, "set_freq": 1, "set_ph": 1, "set_ph_delta": 1, "reset_ph": 0, "set_cond": 4,
         "set_latch_en": 2, "set_digital": 3, "set_scope_en": 1, "set_time_ref": 0, "stop": 0, "nop": 0}


class Trace:
    def __init__(self):
        self.events = []  # Event per update / play / acquire
        self.total = 0
        self.steps = 0
        self.problems = []
        self.conds = []  # (mask, op)
        self.max_loop_depth = 0
        self.waits = []


def run(text, outcome=lambda mask, op: op % 2 == 0, max_steps=300000, inline_ok=False):
    prog, labels = parse(text)
    tr = Trace()
    reg = {}
    t = 0
    pend = {}
    pend_phase = 0
    state = {"gain": (0, 0), "offs": (0, 0), "phase": 0, "freq": None, "mrk": 0, "digital": None}
    pc = 0
    cond = None  # (satisfied, else_wait)
    started = False
    time_ref = None

    def val(a, imm=True, write=False):
        if a.startswith("R"):
            if not a[1:].isdigit() or int(a[1:]) >= NUM_REGISTERS or str(int(a[1:])) != a[1:]:
                tr.problems.append(f"no such register {a}")
            if a not in reg:
                tr.problems.append(f"register {a} read before it is written")
                return 0
            return reg[a]
        if a.startswith("@"):
            if a[1:] not in labels:
                raise BadProgram(f"unknown label {a}")
            return labels[a[1:]]
        return int(a)

    while True:
        if pc >= len(prog):
            tr.problems.append("program runs past its end")
            break
        tr.steps += 1
        if tr.steps > max_steps:
            raise BadProgram("step limit")
        ins, args, raw = prog[pc]
        pc += 1
        if ins in ARITY and len(args) != ARITY[ins]:
            tr.problems.append(f"wrong number of operands: {raw.strip()}")
            continue
        if ins == "stop":
            break
        if ins == "move":
            reg[args[1]] = val(args[0]) & 0xFFFFFFFF
            if not args[1].startswith("R"):
                tr.problems.append(f"move to {args[1]}")
            if not args[0].startswith("R") and not -2**31 <= int(args[0]) < 2**32:
                tr.problems.append(f"immediate out of range: {raw.strip()}")
            val(args[1])
        elif ins in ("add", "sub"):
            a, b = val(args[0]), val(args[1])
            reg[args[2]] = (a + b if ins == "add" else a - b) & 0xFFFFFFFF
        elif ins == "nop":
            pass
        elif ins == "jmp":
            pc = val(args[0])
        elif ins == "loop":
            r = (val(args[0]) - 1) & 0xFFFFFFFF
            reg[args[0]] = r
            if r:
                pc = val(args[1])
        elif ins in ("jge", "jlt"):
            x = val(args[0])
            y = val(args[1])
            if (x >= y) if ins == "jge" else (x < y):
                pc = val(args[2])
        elif ins == "set_cond":
            en, mask, op, els = (val(a) for a in args)
            if en:
                tr.conds.append((t, mask, op, els))
                if not 4 <= els <= MAX_IMMEDIATE:
                    tr.problems.append(f"else duration out of range: {raw.strip()}")
                ok = outcome(mask, op)
                cond = (ok, els)
            else:
                cond = None
        elif ins in REALTIME:
            d = val(args[-1])
            if not args[-1].startswith("R") or ins == "wait":
                if not 1 <= d <= MAX_IMMEDIATE:
                    tr.problems.append(f"duration out of range: {raw.strip()}")
                if d < 4 and ins != "wait":
                    tr.problems.append(f"duration too short: {raw.strip()}")
            if ins == "wait":
                tr.waits.append((t, d))
            if cond is not None and not cond[0]:
                tr.events.append(Event(t, "skipped-" + ins, (), dict(state)))
                t += cond[1]
                continue
            if ins == "wait_sync":
                started = True
                t = 0
                tr.events.append(Event(0, "sync", (), dict(state)))
                t += d
                continue
            if ins in UPDATES:
                state.update(pend)
                state["phase"] = (0 if "reset" in pend else state["phase"]) + pend_phase
                state.pop("reset", None)
                state["set_digital_now"] = pend.get("digital")
                pend, pend_phase = {}, 0
                ev = Event(t, ins, tuple(val(a) if not a.startswith("@") else a for a in args[:-1]), dict(state))
                tr.events.append(ev)
            elif ins in ("latch_rst", "upd_thres"):
                tr.events.append(Event(t, ins, (), dict(state)))
            t += d
        elif ins in ARITY:
            if cond is not None and not cond[0]:
                continue
            v = [val(a) for a in args]
            if ins == "set_mrk":
                pend["mrk"] = v[0]
                if not 0 <= v[0] <= 15:
                    tr.problems.append(f"marker out of range: {raw.strip()}")
            elif ins == "set_awg_gain":
                pend["gain"] = tuple(v)
            elif ins == "set_awg_offs":
                pend["offs"] = tuple(v)
            if ins in ("set_awg_gain", "set_awg_offs") and any(not -32768 <= x <= 32767 for x in v):
                tr.problems.append(f"immediate out of range: {raw.strip()}")
            if ins == "set_freq":
                pend["freq"] = v[0]
                if not -2 * 10**9 <= v[0] <= 2 * 10**9:
                    tr.problems.append(f"immediate out of range: {raw.strip()}")
            elif ins in ("set_ph_delta", "set_ph"):
                if not 0 <= v[0] <= 10**9:
                    tr.problems.append(f"immediate out of range: {raw.strip()}")
                if ins == "set_ph_delta":
                    pend_phase += v[0]
                else:
                    pend["reset"] = True
                    pend_phase = v[0]
            elif ins == "reset_ph":
                pend["reset"] = True
                pend_phase = 0
            elif ins == "set_digital":
                pend["digital"] = tuple(v)
            elif ins == "set_scope_en":
                tr.events.append(Event(t, "scope", tuple(v), dict(state)))
            elif ins == "set_time_ref":
                tr.events.append(Event(t, "time_ref", (), dict(state)))
            elif ins == "set_latch_en":
                tr.events.append(Event(t, "latch_en", tuple(v), dict(state)))
        else:
            raise BadProgram(f"unknown instruction {raw.strip()!r}")
    tr.total = t
    if pend or pend_phase:
        tr.unapplied = True
    return tr
