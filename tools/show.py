"""Re-run a recorded violation and print the schedule and the programs involved: show.py REPLAY.json [MODULE-FILTER]"""
import json
import sys
import warnings

sys.path.insert(0, "/verif")
sys.path.insert(1, "/repo")
warnings.simplefilter("ignore")
import worker  # noqa: E402
from engine import core  # noqa: E402

r = json.load(open(sys.argv[1]))
units = worker.load_units(r["property"])
u = next(x for x in units if x.name == r["unit"])
from vlib import qprop  # noqa: E402

cases = []
orig = qprop.Case.__init__


def init(self, *a, **k):
    cases.append(self)
    return orig(self, *a, **k)


qprop.Case.__init__ = init
vc = core.ConcreteVC(valuation=r["valuation"])
try:
    u.fn(vc)
    print("no violation")
except core.ConcreteFailure as e:
    print("VIOLATION", str(e)[:1500])


def show(b, ind=0, t0=0):
    print(" " * ind + f"[duration {b.dur}]")
    for it in sorted(b.items, key=lambda i: i.t):
        print(" " * ind + repr(it)[:200])
        if hasattr(it, "body"):
            show(it.body, ind + 4)


for c in cases:
    if hasattr(c, "body"):
        show(c.body)
    for pc, (e, a, q) in getattr(c, "progs", {}).items():
        if len(sys.argv) > 2 and sys.argv[2] not in pc[0]:
            continue
        print(pc)
        print(q.sequence["program"])
