"""Writes UNITS.md: every contract unit, what it is about, how it is decided and what it assumes.

    /opt/venv/bin/python tools/units_md.py
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import worker  # noqa: E402
from engine import core  # noqa: E402


def load():
    import glob

    worker.EXTRA, out = {}, {}
    for p in sorted({os.path.basename(f)[:3].upper() for f in glob.glob(f"{VERIF}/units/*.py")}):
        core.UNITS.clear()
        worker.load_units(p)
        out.update({k: u for k, u in core.UNITS.items() if k not in out})
    return out


def main():
    units = load()
    out = ["# Contract units", "",
           "`prove`: all obligations discharged by the verifier for all values and iterations. `bounded`: symbolic values, "
           "stated lengths, never counted as proved. `fuzz`: the contract executed on generated inputs, never counted as "
           "proved. Generated by tools/units_md.py.", ""]
    for p in sorted({p for u in units.values() for p in u.props}):
        out += [f"## {p}", ""]
        for u in units.values():
            if p not in u.props:
                continue
            doc = " ".join((u.doc or "").strip().split("\n\n")[0].split())
            out.append(f"* **{u.name}** ({', '.join(u.modes)}) {doc}")
            if u.targets:
                out.append("  on " + ", ".join("`" + t.replace("quantify_scheduler.", "") + "`" for t in u.targets))
            for a in u.assumptions or ():
                out.append(f"  - assumes: {a}")
        out.append("")
    open(f"{VERIF}/UNITS.md", "w").write("\n".join(out))


if __name__ == "__main__":
    main()
