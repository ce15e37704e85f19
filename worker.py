"""Worker process: proves, falsifies or replays the contract units of one property.

    worker.py sym    PROP OUT.json TIER SEED   symbolic (instrumented real source)
    worker.py fuzz   PROP OUT.json TIER SEED   concrete (untransformed real source)
    worker.py replay PROP OUT.json JOBS.json   concrete, given valuations
"""
from __future__ import annotations

import glob
import importlib.util
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(1, "/repo")
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "agg")

from engine import core  # noqa: E402


EXTRA = {"C02": [f"{VERIF}/units/c12_latency.py"], "C10": [f"{VERIF}/units/c02_building.py"],
         "C12": [f"{VERIF}/units/c02_building.py"]}


def load_units(prop):
    files = sorted(glob.glob(f"{VERIF}/units/{prop.lower()}*.py"))
    for f in files + EXTRA.get(prop, []):
        name = "units_" + os.path.basename(f)[:-3]
        spec = importlib.util.spec_from_file_location(name, f)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
    return [u for u in core.UNITS.values() if prop in u.props]


PRELOAD = [
    "quantify_scheduler",
    "quantify_scheduler.backends.qblox_backend",
    "quantify_scheduler.backends.circuit_to_device",
    "quantify_scheduler.backends.graph_compilation",
    "quantify_scheduler.compilation",
    "quantify_scheduler.pulse_compensation",
]


def preload():
    for m in PRELOAD:
        try:
            importlib.import_module(m)
        except Exception:  # noqa: BLE001
            traceback.print_exc()


def run_jobs(jobs, nproc, hard):
    """jobs: list of (key, fn, timeout).  One forked child each; returns dict key -> result."""
    results = {}
    pending = list(jobs)
    running = {}
    tmp = tempfile.mkdtemp(prefix="vcw_")
    while pending or running:
        while pending and len(running) < nproc:
            key, fn, tmo = pending.pop(0)
            out = os.path.join(tmp, f"{len(results)}_{len(running)}_{time.time_ns()}.json")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                try:
                    r = fn()
                    with open(out, "w") as f:
                        json.dump(r, f, default=str)
                except BaseException as e:  # noqa: BLE001
                    try:
                        with open(out, "w") as f:
                            json.dump({"crash": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}, f)
                    except BaseException:  # noqa: BLE001
                        code = 3
                sys.stdout.flush()
                os._exit(code)
            running[pid] = (key, out, time.time() + tmo)
        pid, _st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (key, out, dl) in list(running.items()):
                if now > dl:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except OSError:
                            pass
            time.sleep(0.01)
            continue
        if pid in running:
            key, out, dl = running.pop(pid)
            try:
                with open(out) as f:
                    results[key] = json.load(f)
            except (OSError, ValueError):
                results[key] = {"crash": "no result (killed: time or memory limit)"}
            try:
                os.unlink(out)
            except OSError:
                pass
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    return results


def sym_job(u, mode, tier):
    def fn():
        sys.setrecursionlimit(5000)
        os.chdir(os.environ["VC_SCRATCH"])
        k = 3 if tier == "thorough" else 1
        opts = dict(u.bounded)
        if tier == "thorough":
            opts["len"] = opts.get("len", 3) + 1
        ex = core.Explorer(u, mode, u.budget * k, opts, cross=(tier == "thorough"))
        ex.explore()
        return ex.result()

    return fn


KNOWN = None


def is_known(unit_name, failure):
    """a failure listed as a finding: reported once, it does not end the search for others"""
    global KNOWN
    if KNOWN is None:
        try:
            KNOWN = [json.loads(x) for x in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.jsonl"))
                     if x.strip()]
        except OSError:
            KNOWN = []
    return any(k.get("status") == "finding" and k.get("unit") == unit_name and k.get("obligation") == failure["obligation"] and
               k.get("detail") in (None, failure["detail"]) for k in KNOWN)


def fuzz_job(u, tier, seed, shard=0):
    def fn():
        os.chdir(os.environ["VC_SCRATCH"])
        k = 6 if tier == "thorough" else 1
        n = -(-u.fuzz * k // u.shards)
        deadline = time.time() + u.budget * k
        res = {"unit": u.name, "n": 0, "skipped": 0, "checked": 0, "failures": [], "why": [], "distinct": 0,
               "samples": [], "covered": []}
        seen = set()
        covered = set()
        tries = 0
        while res["n"] < n and tries < 20 * n and time.time() < deadline:
            rng = random.Random(f"{seed}:{u.name}:{shard}:{tries}" if shard else f"{seed}:{u.name}:{tries}")
            tries += 1
            vc = core.ConcreteVC(rng=rng, bounded=u.bounded)
            try:
                r = run_concrete(u, vc)
            except core.Unbound as e:
                res["why"].append(f"unbound: {e}")
                break
            if r == "skip":
                res["skipped"] += 1
                continue
            res["n"] += 1
            res["checked"] += vc.checked
            covered |= vc.covered
            key = repr(sorted(vc.valuation.items()))
            if key not in seen:
                seen.add(key)
            if len(res["samples"]) < 2 and vc.valuation:
                res["samples"].append({k: vc.valuation[k] for k in list(vc.valuation)[:12]})
            if r is not None:
                failure = {"obligation": r[0], "detail": str(r[1])[:3000], "valuation": vc.valuation}
                if not (is_known(u.name, failure) and failure["obligation"] in {f["obligation"] for f in res["failures"]}):
                    res["failures"].append(failure)
                if len([f for f in res["failures"] if not is_known(u.name, f)]) >= 3:
                    break
        res["distinct"] = len(seen)
        res["covered"] = sorted(covered)
        return res

    return fn


def merge_shards(res):
    out = {}
    for key, r in sorted(res.items(), key=lambda kv: int(kv[0].rsplit("|", 1)[1])):
        name = key.rsplit("|", 1)[0]
        if name not in out:
            out[name] = r
            continue
        a = out[name]
        if "crash" in r:
            a.setdefault("why", []).append(f"shard: {r['crash']}")
            continue
        if "crash" in a:
            r.setdefault("why", []).append(f"shard: {a['crash']}")
            out[name] = r
            continue
        for f in ("n", "skipped", "checked", "distinct"):
            a[f] += r[f]
        both = a["failures"] + [f for f in r["failures"] if not is_known(name, f)]
        a["failures"] = [f for f in both if is_known(name, f)] + [f for f in both if not is_known(name, f)][:3]
        for f in r["failures"]:
            if is_known(name, f) and f["obligation"] not in {g["obligation"] for g in a["failures"]}:
                a["failures"].insert(0, f)
        a["why"] += r["why"]
        a["covered"] = sorted(set(a["covered"]) | set(r["covered"]))
    return out


def _too_long(*_):
    raise TimeoutError("one case ran for more than 100 s")


def run_concrete(u, vc):
    """run_case under a time limit: real code that never returns is a failure, not silence"""
    old = signal.signal(signal.SIGALRM, _too_long)
    signal.alarm(100)
    try:
        return run_case(u, vc)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_case(u, vc):
    """None (held) | 'skip' | (obligation, detail)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u.fn(vc)
        return None
    except core.Skip:
        return "skip"
    except core.ConcreteFailure as e:
        return (e.name, e.detail)
    except core.Unbound:
        raise
    except Exception as e:  # noqa: BLE001
        tb = e.__traceback__
        files = []
        while tb is not None:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        detail = "".join(traceback.format_exception(e))[-2500:]
        # an error raised by the harness itself (no frame of the package involved below the harness)
        idx = max((i for i, f in enumerate(files) if f.startswith(VERIF)), default=-1)
        if not any("/quantify_scheduler/" in f for f in files[idx + 1:]):
            readers = ("q1sim.py", "qcheck.py", "qprop.py")
            if os.path.basename(files[idx]) in readers and not isinstance(e, (ImportError, AttributeError, TypeError)):
                return ("compiled programs can be interpreted", detail)
            raise core.Unbound(f"harness error: {detail}") from None
        return ("no-unexpected-exception", detail)


def main():
    mode, prop, out = sys.argv[1:4]
    scratch = tempfile.mkdtemp(prefix="vcs_")
    os.environ["VC_SCRATCH"] = scratch
    t0 = time.time()
    if mode != "sym":
        from engine import transform

        transform.install_plain()
    if mode == "sym":
        tier, seed = sys.argv[4], int(sys.argv[5])
        from engine import garr, rt, transform  # noqa: F401

        transform.install(rt)
        units = load_units(prop)
        todo = [(u, m) for u in units for m in ("prove", "bounded") if m in u.modes]
        if todo:
            preload()
        k = 3 if tier == "thorough" else 1
        jobs = [((f"{u.name}|{m}"), sym_job(u, m, tier), u.budget * k * 1.3 + 20) for u, m in todo]
        jobs.sort(key=lambda j: -j[2])
        res = run_jobs(jobs, 5, None)
    elif mode == "fuzz":
        tier, seed = sys.argv[4], int(sys.argv[5])
        units = [u for u in load_units(prop) if "fuzz" in u.modes]
        if units:
            preload()
        k = 6 if tier == "thorough" else 1
        jobs = [(f"{u.name}|{i}", fuzz_job(u, tier, seed, i), u.budget * k + 120) for u in units for i in range(u.shards)]
        jobs.sort(key=lambda j: -j[2])
        res = merge_shards(run_jobs(jobs, 5, None))
    elif mode == "replay":
        with open(sys.argv[4]) as f:
            jobsd = json.load(f)
        load_units(prop)
        preload()

        def mk(j):
            def fn():
                os.chdir(scratch)
                u = core.UNITS[j["unit"]]
                vc = core.ConcreteVC(rng=random.Random(0), valuation=j["valuation"], bounded=u.bounded)
                try:
                    r = run_concrete(u, vc)
                except core.Unbound as e:
                    return {"confirmed": False, "why": f"unbound {e}"}
                if r is None or r == "skip":
                    return {"confirmed": False, "why": str(r)}
                return {"confirmed": True, "obligation": r[0], "detail": str(r[1])[:3000],
                        "valuation": vc.valuation}

            return fn

        res = run_jobs([(str(i), mk(j), 120) for i, j in enumerate(jobsd)], 8, None)
    else:
        raise SystemExit("mode?")
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w") as f:
        json.dump({"results": res, "wall": time.time() - t0, "meta": {
            u.name: {"targets": u.targets, "assumptions": u.assumptions, "modes": list(u.modes),
                     "doc": u.doc.split("\n")[0]} for u in core.UNITS.values()}}, f)


if __name__ == "__main__":
    main()
