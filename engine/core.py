"""Contract harness context (four modes), obligations, exploration."""
from __future__ import annotations

import importlib
import inspect
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

UNITS = {}


class Unit:
    def __init__(self, fn, name, props, targets, modes, fuzz, bounded, budget, doc, assumptions, raises_ok, shards=1):
        self.shards = shards
        self.fn = fn
        self.name = name
        self.props = props
        self.targets = targets
        self.modes = modes
        self.fuzz = fuzz
        self.bounded = bounded
        self.budget = budget
        self.doc = doc
        self.assumptions = assumptions
        self.raises_ok = raises_ok


def unit(name, props, targets=(), modes=("prove", "fuzz"), fuzz=150, bounded=None, budget=60, assumptions=(),
         raises_ok=(), shards=1):
    """Register a contract unit.

    targets: dotted names of the functions of /repo whose contract the unit discharges.
    modes: prove (symbolic, unbounded), bounded (symbolic, small sizes), fuzz (concrete, real code).
    """

    def deco(fn):
        if name in UNITS:
            raise RuntimeError(f"duplicate unit {name}")
        UNITS[name] = Unit(fn, name, [props] if isinstance(props, str) else list(props), list(targets), tuple(modes),
                           fuzz, bounded or {}, budget, (fn.__doc__ or "").strip(), list(assumptions), raises_ok, shards)
        return fn

    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None


class ConcreteFailure(Exception):
    def __init__(self, name, detail):
        super().__init__(name, detail)
        self.name = name
        self.detail = detail


class Skip(BaseException):
    """harness cannot bind to this tree / sample rejected"""


class Unbound(BaseException):
    """a name the harness needs does not exist in this tree"""


class Fake:
    """base of objects that stand in for objects of the code under test: using what they do not define is no verdict"""

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unbound(f"{type(self).__name__}.{n}: the code uses more of this object than the unit describes")

    def _bad(self, *a, **k):
        raise Unbound(f"{type(self).__name__}: the code uses this object in a way the unit does not describe")

    __len__ = __iter__ = __contains__ = __getitem__ = __setitem__ = __delitem__ = __call__ = __add__ = __lt__ = __gt__ = _bad

    def __bool__(self):
        return True


def resolve(path):
    """'pkg.mod:Qual.name' -> object"""
    mod, _, qual = path.partition(":")
    try:
        obj = importlib.import_module(mod)
        for p in qual.split(".") if qual else ():
            obj = getattr(obj, p)
    except (ImportError, AttributeError) as e:
        raise Unbound(f"{path}: {e}") from None
    return obj


class BaseVC:
    mode = None
    symbolic = False

    def target(self, path):
        return resolve(path)

    fn = target

    def representation(self, obj, *names):
        """the unit sets up private attributes of ``obj``: these have to be all it has"""
        if set(vars(obj)) != set(names):
            raise Unbound(f"attributes of {type(obj).__name__} are {sorted(vars(obj))}, the contract describes {sorted(names)}")

    # logic helpers usable on both symbolic and concrete values
    def And(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        return a if c else b

    def note(self, *a):
        pass

    def cover(self, name):
        self.covered.add(name)

    def run(self, f, *a, **k):
        try:
            return Outcome(value=self.call(f, *a, **k))
        except Exception as e:  # noqa: BLE001
            _reraise_if_harness_error(e)
            return Outcome(exc=e)

    def call(self, f, *a, **k):
        return f(*a, **k)

    def stub(self, target, handler, always=False):
        pass


def _reraise_if_harness_error(e):
    """an exception raised by binding (wrong signature / missing attribute in /verif) is not behaviour"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is not None and "/verif/" in last.tb_frame.f_code.co_filename and isinstance(
        e, (TypeError, AttributeError, ImportError)
    ):
        if "/verif/engine/rt.py" in last.tb_frame.f_code.co_filename or "/verif/engine/core.py" in \
                last.tb_frame.f_code.co_filename:
            # called C code or a mismatched signature: harness-level only if no repo frame is in between
            tb = e.__traceback__
            while tb is not None:
                if "/repo/" in tb.tb_frame.f_code.co_filename:
                    return
                tb = tb.tb_next
        raise Unbound(f"harness binding: {type(e).__name__}: {e}") from None


# --------------------------------------------------------------------- concrete
class ConcreteVC(BaseVC):
    """fuzz / replay on the real, untransformed code"""

    def __init__(self, rng=None, valuation=None, bounded=None):
        self.rng = rng
        self.given = valuation
        self.valuation = {}
        self.covered = set()
        self.checked = 0
        self.mode = "fuzz" if valuation is None else "replay"
        self.opts = bounded or {}
        self._names = {}

    def _nm(self, name):
        k = self._names.get(name, 0)
        self._names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def _get(self, name, gen):
        name = self._nm(name)
        if self.given is not None and name in self.given:
            v = self.given[name]
        else:
            v = gen(self.rng or random.Random(hash(name) & 0xFFFF))
        self.valuation[name] = v
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        def g(r):
            if gen is not None:
                return int(gen(r))
            a = lo if lo is not None else -(10**6)
            b = hi if hi is not None else max(a + 10**6, 10**6)
            u = r.random()
            if u < 0.12:
                return a
            if u < 0.24:
                return b
            if u < 0.5:
                return min(b, max(a, r.choice([0, 1, -1, 2, 3, 4, 5, 7, 8, 10, 16, 20, 63, 64, 100])))
            if u < 0.75:
                return r.randint(a, min(b, a + 50))
            return r.randint(a, b)

        return int(self._get(name, g))

    def real(self, name, lo=None, hi=None, gen=None):
        def g(r):
            if gen is not None:
                return float(gen(r))
            a = lo if lo is not None else -1e3
            b = hi if hi is not None else max(a + 1e3, 1e3)
            u = r.random()
            if u < 0.1:
                return a
            if u < 0.2:
                return b
            if u < 0.35:
                return min(b, max(a, r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 0.25])))
            if u < 0.6:
                return a + (b - a) * r.randint(0, 100) / 100
            return r.uniform(a, b)

        return float(self._get(name, g))

    def bool(self, name):
        return bool(self._get(name, lambda r: r.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda r: r.randrange(len(options)))
        return options[int(i) % len(options)]

    def length(self, name, lo=0, hi=4):
        return int(self._get(name, lambda r: r.randint(lo, hi)))

    def seq(self, name, make, lo=0, hi=None, spec=None):
        n = self.length(f"len({name})", lo, hi if hi is not None else self.opts.get("len", 4))
        return [make(i, f"{name}[{i}]") for i in range(n)]

    def assume(self, c):
        if not c:
            raise Skip("assume")

    def prove(self, name, c, detail=None):
        self.checked += 1
        if not c:
            raise ConcreteFailure(name, detail() if callable(detail) else detail)

    def eq(self, a, b, rel=1e-9, abs=1e-12):
        if isinstance(a, float) or isinstance(b, float) or isinstance(a, complex) or isinstance(b, complex):
            import cmath

            return cmath.isclose(complex(a), complex(b), rel_tol=rel, abs_tol=abs)
        return bool(a == b)

    def le(self, a, b, rel=1e-9, abs=1e-12):
        return bool(a <= b) or self.eq(float(a), float(b), rel, abs)

    def lit(self, x):
        return float(x)

    def is_true(self, c):
        return bool(c)

    def floor(self, x):
        return math.floor(x)

    def round(self, x):
        return round(x)


# ----------------------------------------------------------------------- symbolic
class Explorer:
    def __init__(self, u, mode, budget, opts=None, cross=False):
        self.u = u
        self.mode = mode
        self.opts = opts or {}
        self.work = [[]]
        self.cand = {}
        self.solver_time = 0.0
        self.queries = 0
        self.deadline = time.time() + budget
        self.max_depth = 2000
        self.obls = {}  # name -> dict
        self.paths = 0
        self.completed = 0
        self.status = "ok"
        self.why = []
        self.covered = set()
        self.failures = []
        self.cross = cross
        self.cross_n = 0
        self.cross_bad = []
        self.backends = {}
        self.assumed = []

    def push(self, prefix):
        self.work.append(prefix)

    def explore(self):
        import engine.sym as S

        t0 = time.time()
        max_paths = self.opts.get("max_paths", 4000)
        while self.work:
            if time.time() > self.deadline:
                self.status = "budget"
                self.why.append("time budget")
                break
            if self.paths >= max_paths:
                self.status = "budget"
                self.why.append("path budget")
                break
            prefix = self.work.pop()
            self.paths += 1
            path = S.Path(self, prefix)
            S.CUR = path
            vc = SymVC(self, path)
            path.vc = vc
            from engine import rt

            rt.reset()
            try:
                self.u.fn(vc)
                self.completed += 1
            except S.PathEnd:
                self.completed += 1
            except S.Infeasible:
                pass
            except S.ObligationFailed:
                self.completed += 1
            except S.Unsupported as e:
                self.status = "unsupported"
                self.why.append(f"unsupported: {e} @ {_where(e)}")
                if len(self.why) > 5:
                    break
            except S.Budget as e:
                self.status = "budget"
                self.why.append(f"budget: {e}")
                break
            except Unbound as e:
                self.status = "unbound"
                self.why.append(str(e))
                break
            except z3_exc() as e:
                self.status = "unsupported"
                self.why.append(f"z3: {e} @ {_where(e)}")
            except RecursionError:
                self.status = "unsupported"
                self.why.append("recursion limit")
            except Exception as e:  # noqa: BLE001
                # unexpected exception on this path: a failed obligation "no unexpected exception"
                self.fail("no-unexpected-exception", vc, f"{type(e).__name__}: {e} @ {_where(e)}", exc=True)
                self.completed += 1
            finally:
                S.CUR = None
        self.wall = time.time() - t0

    def obl(self, name):
        return self.obls.setdefault(name, {"vcs": 0, "discharged": 0, "failed": 0, "unknown": 0})

    def fail(self, name, vc, detail, exc=False, model=None):
        o = self.obl(name)
        o["vcs"] += 1
        o["failed"] += 1
        if len(self.failures) < 12:
            val = None
            try:
                val = vc.model_valuation(model)
            except Exception as e:  # noqa: BLE001
                detail = f"{detail} (no valuation: {e})"
            self.failures.append({"obligation": name, "valuation": val, "detail": str(detail)[:2000], "exc": exc})

    def result(self):
        return {
            "unit": self.u.name,
            "mode": self.mode,
            "status": self.status,
            "why": self.why[:6],
            "paths": self.paths,
            "completed": self.completed,
            "obligations": self.obls,
            "failures": self.failures,
            "solver_time": self.solver_time,
            "queries": self.queries,
            "wall": self.wall,
            "covered": sorted(self.covered),
            "backends": self.backends,
            "cross_checked": self.cross_n,
            "cross_bad": self.cross_bad,
        }


def z3_exc():
    import engine.sym as S

    return S.z3.Z3Exception


def _where(e):
    fr = traceback.extract_tb(e.__traceback__)
    out = []
    for f in fr:
        if "/repo/" in f.filename or "/verif/units" in f.filename:
            out.append(f"{os.path.basename(f.filename)}:{f.lineno}")
    return " > ".join(out[-4:])


class SymVC(BaseVC):
    symbolic = True

    def __init__(self, ex, path):
        import engine.sym as S

        self.S = S
        self.ex = ex
        self.path = path
        self.mode = ex.mode
        self.opts = ex.opts
        self.inputs = {}
        self._names = {}
        self.covered = ex.covered

    def _nm(self, name):
        k = self._names.get(name, 0)
        self._names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def _rng(self, v, lo, hi):
        z3 = self.S.z3
        if lo is not None:
            self.path.add(v.t >= self.S.term(lo))
        if hi is not None:
            self.path.add(v.t <= self.S.term(hi))

    def int(self, name, lo=None, hi=None, gen=None):
        name = self._nm(name)
        v = self.S.SymInt(self.S.z3.Int(name))
        self.inputs[name] = v
        self._rng(v, lo, hi)
        return v

    def real(self, name, lo=None, hi=None, gen=None):
        name = self._nm(name)
        v = self.S.SymReal(self.S.z3.Real(name))
        self.inputs[name] = v
        self._rng(v, lo, hi)
        return v

    def bool(self, name):
        name = self._nm(name)
        v = self.S.SymBool(self.S.z3.Bool(name))
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        name = self._nm(name)
        v = self.S.SymInt(self.S.z3.Int(name))
        self.inputs[name] = v
        self._rng(v, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if self.path.fork(v.t == k):
                return options[k]
        self.path.add(v.t == len(options) - 1)
        return options[-1]

    def length(self, name, lo=0, hi=4):
        """concrete length, one path per value"""
        return self.choice_int(name, lo, hi)

    def choice_int(self, name, lo, hi):
        name = self._nm(name)
        v = self.S.SymInt(self.S.z3.Int(name))
        self.inputs[name] = v
        self._rng(v, lo, hi)
        for k in range(lo, hi):
            if self.path.fork(v.t == k):
                return k
        return hi

    def seq(self, name, make, lo=0, hi=None, spec=None):
        from engine import rt

        if self.mode == "prove" and (spec is not None):
            n = self.int(f"len({name})", lo, hi)
            return rt.SymSeq(name, n, make, spec, self)
        n = self.length(f"len({name})", lo, hi if hi is not None and hi < 6 else self.opts.get("len", 3))
        return [make(i, f"{name}[{i}]") for i in range(n)]

    def call(self, f, *a, **k):
        from engine import rt

        return rt.call(f, *a, **k)

    def stub(self, target, handler, always=False):
        if self.mode != "prove" and not always:
            return
        from engine import rt

        f = resolve(target) if isinstance(target, str) else target
        try:
            sig = inspect.signature(f)
        except (TypeError, ValueError):
            rt.add_stub(f, handler)
            return
        hsig = inspect.signature(handler)

        def contract(*a, **k):
            b = sig.bind(*a, **k)  # (arguments by keyword or by position: the same call)
            b = (b.args, b.kwargs)
            try:
                hsig.bind(*b[0], **b[1])
            except TypeError as e:
                raise Unbound(f"contract of {target}: {e}") from None
            return handler(*b[0], **b[1])

        rt.add_stub(f, contract)

    def assume(self, c):
        self.path.assume(c)

    def is_true(self, c):
        """c holds on every state of this path"""
        t = self.S.boolterm(c)
        return self.path.check(self.S.z3.Not(t)) == self.S.z3.unsat

    def prove(self, name, c, detail=None):
        S = self.S
        z3 = S.z3
        o = self.ex.obl(name)
        t = z3.simplify(S.boolterm(c))
        if z3.is_true(t):
            o["vcs"] += 1
            o["discharged"] += 1
            self.ex.backends["simplifier"] = self.ex.backends.get("simplifier", 0) + 1
            return
        self.path.solver.set("timeout", S.Path.PROVE_TIMEOUT)
        r = self.path.check(z3.Not(t))
        model = self.path.solver.model() if r == z3.sat else None
        backend = "z3"
        if r == z3.unknown:
            r, model, backend = second_opinion(S, self.path.pc + [z3.Not(t)])
        self.path.solver.set("timeout", S.Path.FORK_TIMEOUT)
        if r == z3.unsat:
            o["vcs"] += 1
            o["discharged"] += 1
            self.ex.backends[backend] = self.ex.backends.get(backend, 0) + 1
            if self.ex.cross and backend == "z3":
                rr = cvc5_check(S, self.path.pc + [z3.Not(t)])
                if rr == "unsat":
                    self.ex.cross_n += 1
                elif rr == "sat":
                    self.ex.cross_bad.append(name)
        elif r == z3.sat:
            self.ex.fail(name, self, detail() if callable(detail) else (detail or str(t)[:800]), model=model)
            self.assume(c)
            return
        else:
            o["vcs"] += 1
            o["unknown"] += 1
            if self.ex.status == "ok":
                self.ex.status = "unknown"
            self.ex.why.append(f"solver unknown on {name}")
        self.path.add(t)

    def model_valuation(self, model=None):
        S = self.S
        if model is None:
            self.path.solver.set("timeout", 10000)
            if self.path.check() != S.z3.sat:
                return None
            model = self.path.solver.model()
        out = {}
        for k, v in self.inputs.items():
            x = S.model_value(model, v.t)
            if isinstance(x, Fraction):
                x = float(x)
            out[k] = x
        return out

    def And(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return self.S.and_(*xs)

    def Or(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return self.S.or_(*xs)

    def Not(self, x):
        return self.S.not_(x)

    def implies(self, a, b):
        return self.S.implies(a, b)

    def ite(self, c, a, b):
        return self.S.ite(c, a, b)

    def eq(self, a, b, rel=None, abs=None):
        return a == b

    def le(self, a, b, rel=None, abs=None):
        return a <= b

    def lit(self, x):
        return Fraction(x) if not isinstance(x, float) else self.S.frac(x)

    def floor(self, x):
        from engine import rt

        return rt.call(math.floor, x)

    def round(self, x):
        from engine import rt

        return rt.call(round, x)


def second_opinion(S, assertions):
    z3 = S.z3
    for tac in ("qfnra-nlsat", "smt"):
        try:
            s = z3.Then("simplify", "propagate-values", "solve-eqs", tac).solver()
            s.set("timeout", 8000)
            s.add(*assertions)
            r = s.check()
            if r == z3.unsat:
                return r, None, f"z3/{tac}"
            if r == z3.sat:
                return r, s.model(), f"z3/{tac}"
        except z3.Z3Exception:
            pass
    if cvc5_check(S, assertions) == "unsat":
        return z3.unsat, None, "cvc5"
    return z3.unknown, None, None


def cvc5_check(S, assertions, timeout=8000):
    try:
        import cvc5
    except ImportError:
        return "unavailable"
    s = S.z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(timeout))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in out:
                res = "unsat"
            elif out.strip() == "sat":
                res = "sat"
            elif "unknown" in out:
                res = "unknown"
        return res or "error"
    except Exception as e:  # noqa: BLE001
        return f"error {e}"
