"""digests.py SEED NAMES N [verbose index]: compiles N random schedules and prints a digest of what each became (run in a process of its own)"""
import hashlib
import os
import random
import sys
import warnings

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [root, os.environ.get("REPO", "/repo")]
    warnings.simplefilter("ignore")
    from engine import core
    from units import c16_purity as c16
    from vlib import qops

    qops.NAMELESS = True

    seed, n = sys.argv[1], int(sys.argv[2])
    show = int(sys.argv[3]) if len(sys.argv) > 3 else None
    for i in range(n):
        if show is not None and i != show:
            continue
        vc = core.ConcreteVC(rng=random.Random(f"{seed}:{i}"), bounded={})
        s, cfg, _d = c16.made(vc)
        r = c16.result(c16.compiled(vc, s, cfg))
        text = repr(r)
        print("digest", i, hashlib.sha256(text.encode()).hexdigest(), r[0] if r[0] == "error" else "compiled", flush=True)
        if show is not None:
            print("text", text)
