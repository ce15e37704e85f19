"""SeqC programs as the sequencers of the Zurich Instruments devices run them, in clock cycles.

The cost of every instruction follows the description of the instruction timing in the reference documentation of the backend:
HDAWG: wait(n) takes n + 3 cycles, setTrigger takes one cycle and one more for each further term (at most two), executeTableEntry
none.  UHFQA: wait(n) takes n cycles, startQA seven, playWave none.
"""
import re


class Rejected(Exception):
    pass


def trigger_cost(value):
    terms = str(value).count("+") + 1
    return 1 + min(terms - 1, 2)


def cost(device, name, args):
    if name == "wait":
        n = int(args)
        if n < 0:
            raise Rejected(f"wait({n})")
        return n + (3 if device == "HDAWG" else 0)
    if name == "setTrigger":
        return trigger_cost(args)
    if name == "startQA":
        return 7
    if name in ("executeTableEntry", "playWave", "waitDigTrigger"):
        return 0
    raise Rejected(f"unknown instruction {name}")


def run(program, device):
    """-> (repetitions, [(name, arguments, clock)], clocks of one iteration, variables, statements before the loop)"""
    variables, header, body, reps = {}, [], None, None
    closed = False
    for raw in program.split("\n"):
        line = raw.split("//")[0].strip()
        if not line:
            continue
        m = re.fullmatch(r"(var|wave)\s+(\w+)\s*=\s*(.*);", line)
        if m:
            variables[m[2]] = m[3]
            continue
        m = re.fullmatch(r"repeat\((\w+)\)", line)
        if m:
            reps = int(variables.get(m[1], m[1]))
            continue
        if line == "{":
            if body is not None or reps is None:
                raise Rejected("block without loop")
            body = []
            continue
        if line == "}":
            if body is None or closed:
                raise Rejected("block closed twice")
            closed = True
            continue
        m = re.fullmatch(r"(\w+)\((.*)\);", line)
        if not m:
            raise Rejected(f"not an instruction: {line}")
        if closed:
            raise Rejected(f"instruction after the loop: {line}")
        (header if body is None else body).append((m[1], m[2]))
    if reps is not None and not closed:
        raise Rejected("loop not closed")
    clock, events = 0, []
    for name, args in body or []:
        if name == "waitDigTrigger":
            if clock:
                raise Rejected("trigger inside the iteration")
            events.append((name, args, clock))
            continue
        events.append((name, args, clock))
        clock += cost(device, name, args)
    return reps, events, clock, variables, header
