#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

    python3 check.py P01 [quick|thorough]
    python3 check.py --replay FILE      re-run a recorded violation on the real code

exit 0: every obligation discharged / nothing found; exit 1: VIOLATION line.
"""
from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", QT_QPA_PLATFORM="offscreen", LANG="C.UTF-8",
        LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore", TZ="UTC",
    )
    e.pop("PYTHONPATH", None)
    return e


def start(mode, prop, out, *args):
    log = open(out + ".log", "w")
    return subprocess.Popen([PY, os.path.join(VERIF, "worker.py"), mode, prop, out, *map(str, args)], env=env(),
                            cwd="/", stdout=log, stderr=subprocess.STDOUT)


def load(out):
    try:
        with open(out) as f:
            return json.load(f)["results"]
    except (OSError, ValueError, KeyError):
        return None


def replay(prop, jobs, tmp):
    if not jobs:
        return {}
    jf = os.path.join(tmp, "jobs.json")
    with open(jf, "w") as f:
        json.dump(jobs, f)
    out = os.path.join(tmp, "replay.json")
    p = start("replay", prop, out, jf)
    try:
        p.wait(timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
    return load(out) or {}


def load_meta(*outs):
    """targets / assumptions per unit, as reported by the workers"""
    meta = {}
    for o in outs:
        try:
            with open(o) as f:
                meta.update(json.load(f)["meta"])
        except (OSError, ValueError, KeyError):
            pass
    return meta


class Meta(dict):
    def __missing__(self, k):
        return {"targets": [], "assumptions": [], "modes": [], "doc": ""}


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_main(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), {"level": "other"})
    known = [json.loads(l) for l in open(os.path.join(VERIF, "known_findings.jsonl")) if l.strip()] \
        if os.path.exists(os.path.join(VERIF, "known_findings.jsonl")) else []
    known = [k for k in known if k.get("property") == prop and k.get("status") == "finding"]
    tmp = tempfile.mkdtemp(prefix="vcc_")
    so, fo = os.path.join(tmp, "sym.json"), os.path.join(tmp, "fuzz.json")
    ps = start("sym", prop, so, tier, seed)
    pf = start("fuzz", prop, fo, tier, seed)
    limit = 800 if tier == "quick" else 6 * 3600
    for p in (ps, pf):
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
    sym, fuzz = load(so), load(fo)
    notes = []
    for nm, r, o in (("sym", sym, so), ("fuzz", fuzz, fo)):
        if r is None:
            tail = open(o + ".log").read()[-1500:]
            notes.append(f"{nm} worker gave no result: {tail}")
    sym, fuzz = sym or {}, fuzz or {}
    meta = Meta(load_meta(so, fo))
    violations = []  # (unit, obligation, valuation|None, detail, kind)
    # -- concrete failures on the real code
    for name, r in fuzz.items():
        for f in r.get("failures", []):
            violations.append((name, f["obligation"], f["valuation"], f["detail"], "input"))
    # -- refuted obligations: replay their counterexamples on the real code
    jobs, owners = [], []
    for key, r in sym.items():
        uname, mode = key.rsplit("|", 1)
        for f in r.get("failures", []):
            if f.get("valuation") is not None and set(meta[uname]["modes"]) & {"fuzz", "bounded"}:
                jobs.append({"unit": uname, "valuation": f["valuation"]})
                owners.append((uname, mode, f))
    confirmed = set()
    undecided = []
    if jobs:
        rr = replay(prop, jobs[:60], tmp)
        for i, (uname, mode, f) in enumerate(owners[:60]):
            x = rr.get(str(i), {})
            if x.get("confirmed"):
                confirmed.add((uname, f["obligation"]))
                violations.append((uname, f["obligation"], x["valuation"],
                                   f"{mode}: obligation '{f['obligation']}' refuted; replay: {x['obligation']}: "
                                   f"{x['detail']}", "input"))
    any_input = {v[0] for v in violations}
    for key, r in sym.items():
        uname, mode = key.rsplit("|", 1)
        for f in r.get("failures", []):
            if uname in any_input:
                continue
            if mode == "prove" and not f.get("exc") and r.get("status") in ("ok", "unknown", "budget"):
                violations.append((uname, f["obligation"], None,
                                   f"{mode}: obligation refuted by the solver: {f['detail']} model={f['valuation']}",
                                   "noinput"))
            else:
                undecided.append(f"{key}: {f['obligation']} refuted symbolically, not reproduced on the real code")
    # ----------------------------------------------------------- evidence
    obls = disch = 0
    proved_units, partial = [], []
    targets_proved, solver_time, queries = set(), 0.0, 0
    backends = {}
    b_obls = b_disch = 0
    for key, r in sym.items():
        uname, mode = key.rsplit("|", 1)
        if "crash" in r:
            partial.append(f"{key}: {r['crash']}")
            continue
        o = sum(v["vcs"] for v in r["obligations"].values())
        d = sum(v["discharged"] for v in r["obligations"].values())
        solver_time += r["solver_time"]
        queries += r["queries"]
        for b, c in r.get("backends", {}).items():
            backends[b] = backends.get(b, 0) + c
        if mode == "prove":
            obls += o
            disch += d
            if r["status"] == "ok" and o > 0 and o == d and r["completed"] > 0:
                proved_units.append(uname)
                targets_proved.update(meta[uname]["targets"])
            else:
                partial.append(f"{key}: {r['status']} {'; '.join(r['why'][:2])} ({d}/{o} discharged)")
        else:
            b_obls += o
            b_disch += d
            if r["status"] != "ok":
                partial.append(f"{key}: {r['status']} {'; '.join(r['why'][:2])}")
    fz_n = sum(r.get("n", 0) for r in fuzz.values())
    fz_d = sum(r.get("distinct", 0) for r in fuzz.values())
    fz_c = sum(r.get("checked", 0) for r in fuzz.values())
    for k, r in fuzz.items():
        if "crash" in r:
            partial.append(f"{k}|fuzz: {r['crash']}")
        for w in r.get("why", []):
            partial.append(f"{k}|fuzz: {w[:300]}")
        if r.get("n") == 0 and not r.get("why"):
            partial.append(f"{k}|fuzz: no sample satisfied the precondition")
    samples = []
    for k, r in fuzz.items():
        for s in r.get("samples", [])[:1]:
            samples.append({"unit": k, "input": s})
    all_assume = sorted({a for m in meta.values() for a in m["assumptions"]})
    level = entry.get("level", "other")
    bounded_only = sorted({u for u, m in meta.items() if "prove" not in m["modes"]})
    cov = {
        "obligations": obls,
        "discharged": disch,
        "checker_cmd": f"{PY} {VERIF}/worker.py sym {prop} OUT.json {tier} {seed}",
        "trusted_base": [
            "z3 5.3.2 (python API); cvc5 1.4.2 as second back end",
            "engine/transform.py + engine/rt.py + engine/sym.py: VC generation from the instrumented real source",
            "CPython 3.12 executes the instrumented source",
        ],
        "units_proved": proved_units,
        "functions_under_contract_proved": sorted(targets_proved),
        "functions_bounded_only": sorted({t for u in bounded_only for t in meta[u]["targets"]} - targets_proved),
        "undecided_or_partial": partial + undecided,
        "obligations_by_backend": backends,
        "solver_time_s": round(solver_time, 3),
        "solver_queries": queries,
        "bounded_symbolic": {"obligations": b_obls, "discharged": b_disch,
                             "note": "bounded stand-in, not counted as proved"},
        "bounded_units": {u: meta[u]["doc"] for u in bounded_only},
        "evaluations": fz_n,
        "distinct_nontrivial": fz_d,
        "rule": "contract executed on the untransformed real code with generated inputs; non-trivial = precondition "
                "satisfied and input not seen before (bounded stand-in, not counted as proved)",
        "contract_checks_executed": fz_c,
        "samples": samples[:8] or ["none"],
        "per_unit": {k: {"status": r.get("status", "crash"), "paths": r.get("paths"), "wall": round(r.get("wall", 0), 2),
                         "obligations": r.get("obligations")} for k, r in sym.items()},
        "per_unit_concrete": {k: {"n": r.get("n"), "checked": r.get("checked"), "covered": r.get("covered")}
                              for k, r in fuzz.items()},
        "explanation": "contract units executed symbolically (prove: unbounded inputs) and concretely (bounded)",
    }
    cov["notes"] = notes
    # known findings: units whose name is listed are expected to fail on exactly that input
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    out_lines = []
    kf_hit = set()
    fresh = []
    for v in violations:
        k = next((k for k in known if k.get("unit") == v[0] and k.get("obligation") == v[1]
                  and k.get("detail") in (None, str(v[3]))), None)
        if k is not None and v[4] == "input":
            kf_hit.add(k["what"])
        elif k is not None:
            kf_hit.add(k["what"])
        else:
            fresh.append(v)
    for w in sorted(kf_hit):
        out_lines.append(f"KNOWN-FINDING: property={prop} {w}")
    seen = set()
    for uname, ob, val, detail, kind in fresh:
        if (uname, ob, kind) in seen:
            continue
        seen.add((uname, ob, kind))
        path = os.path.join(VERIF, "replays", f"{prop}-{len(seen)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "unit": uname, "obligation": ob, "valuation": val, "detail": detail,
                       "targets": meta[uname]["targets"], "kind": kind,
                       "replay_cmd": f"python3 {VERIF}/check.py --replay {path}"}, f, indent=1, default=str)
        out_lines.append(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if kind == "noinput"
                                                                      else ""))
        out_lines.append(f"  unit={uname} obligation={ob}: {str(detail)[:600]}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": all_assume + ["Python floats are treated as mathematical reals in proofs (machine arithmetic "
                                     "not modelled); concrete runs use real floats",
                                     "every call of a contract unit terminates"],
        "wall_s": round(time.time() - t0, 2), "violations": len(seen),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] obligations {disch}/{obls} proved, units proved {len(proved_units)}, bounded VCs "
          f"{b_disch}/{b_obls}, concrete runs {fz_n} ({fz_c} checks), {ev['wall_s']} s")
    for p in partial + undecided + notes:
        print("  undecided:", p[:400])
    for l in out_lines:
        print(l)
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    if seen:
        return 1
    if obls + b_obls + fz_c == 0:
        print("no obligation was generated: no answer")
        return 3
    return 0


def replay_main(path):
    d = json.load(open(path))
    if d.get("valuation") is None:
        print("no failing input recorded; failed obligation:", d["unit"], d["obligation"])
        print(d["detail"])
        return 1
    tmp = tempfile.mkdtemp(prefix="vcr_")
    r = replay(d["property"], [{"unit": d["unit"], "valuation": d["valuation"]}], tmp)
    print(json.dumps(r.get("0"), indent=1))
    return 1 if r.get("0", {}).get("confirmed") else 0


if __name__ == "__main__":
    sys.exit(main())
