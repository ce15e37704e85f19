"""Symbolic values (z3 terms behind Python's data model) and the path engine.

Python ``int`` is modelled as a mathematical integer, Python ``float`` as a
mathematical real (float literals mean their shortest decimal representation).
"""
from __future__ import annotations

import math
import numbers
import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class Control(BaseException):
    """Engine control flow; never swallowed by ``except Exception``."""


class PathEnd(Control):
    """The current path is complete (e.g. end of an arbitrary loop iteration)."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    """A construct the verifier has no model for."""


class Budget(Control):
    pass


class ObligationFailed(Control):
    """stop this path after a failed obligation"""


CUR = None  # the current Path


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a path")
    return CUR


# ------------------------------------------------------------------- terms
def frac(x):
    """exact decimal value of a Python number"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported("non-finite float meets a symbolic value")
    return Fraction(repr(f))


def is_num(x):
    import numpy as np

    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) and not isinstance(x, Sym)


def term(x):
    """z3 term for a Python or symbolic number/bool (None when not convertible)"""
    if isinstance(x, (SymNum, SymBool)):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    import numpy as np

    if isinstance(x, np.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating, Fraction)):
        f = frac(x)
        return z3.RealVal(f)
    return None


def to_real(t):
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def to_arith(t):
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def wrap(t):
    t = z3.simplify(t)
    s = t.sort()
    if s == z3.BoolSort():
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    if s == z3.IntSort():
        if z3.is_int_value(t):
            return t.as_long()
        return SymInt(t)
    if s == z3.RealSort():
        return SymReal(t)
    raise Unsupported(f"sort {s}")


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().fork(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == "bool_":
            return wrap(self.t == boolterm(o))
        return num(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __and__(self, o):
        if isinstance(o, bool):
            return wrap(z3.And(self.t, boolterm(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return wrap(z3.Or(self.t, boolterm(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return wrap(z3.Xor(self.t, boolterm(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def __repr__(self):
        return cur().token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return cur().token(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def num(x):
    if isinstance(x, SymBool):
        return SymInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    return x


def _boolop(name):
    def f(self, o):
        return getattr(num(self), name)(o)

    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ __rfloordiv__ "
    "__mod__ __rmod__ __neg__ __pos__ __abs__ __lt__ __le__ __gt__ __ge__"
).split():
    if _n in ("__neg__", "__pos__", "__abs__"):
        setattr(SymBool, _n, (lambda nn: (lambda self: getattr(num(self), nn)()))(_n))
    else:
        setattr(SymBool, _n, _boolop(_n))


def _without(a, b):
    """a / b as a term without the factor b, if b is written as a factor of a (b != 0 is checked)"""
    if a.eq(b) or (z3.is_app_of(a, z3.Z3_OP_TO_REAL) and a.arg(0).eq(b)):
        return z3.RealVal(1)
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return _without(a.arg(0), b)
    if z3.is_mul(a):
        for k, x in enumerate(a.children()):
            r = _without(x, b)
            if r is not None:
                rest = [to_real(y) for j, y in enumerate(a.children()) if j != k] + [r]
                return z3.Product(rest)
    if z3.is_div(a):
        r = _without(a.arg(0), b)
        if r is not None:
            return r / to_real(a.arg(1))
    return None


def divide(a, b):
    c = b.arg(0) if z3.is_app_of(b, z3.Z3_OP_TO_REAL) else b
    if z3.is_const(c) and not z3.is_rational_value(c) and not z3.is_int_value(c):
        r = _without(a, c)
        if r is not None:
            return r
    return to_real(a) / to_real(b)


def not_(x):
    if isinstance(x, SymBool):
        return wrap(z3.Not(x.t))
    if x is NotImplemented:
        return x
    return not x


def and_(*xs):
    if any(isinstance(x, Sym) for x in xs):
        return wrap(z3.And(*[boolterm(x) for x in xs]))
    return all(bool(x) for x in xs)


def or_(*xs):
    if any(isinstance(x, Sym) for x in xs):
        return wrap(z3.Or(*[boolterm(x) for x in xs]))
    return any(bool(x) for x in xs)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(c, Sym):
        ta, tb = term(a), term(b)
        if ta is None or tb is None:
            return a if bool(c) else b
        if ta.sort() != tb.sort():
            ta, tb = to_real(to_arith(ta)), to_real(to_arith(tb))
        return wrap(z3.If(boolterm(c), ta, tb))
    return a if c else b


def _coerce(a, b):
    ta, tb = to_arith(term(a)), term(b)
    if tb is None:
        return None
    tb = to_arith(tb)
    if ta.sort() != tb.sort():
        return to_real(ta), to_real(tb)
    return ta, tb


def floor_real(t):
    return z3.ToInt(t)


def int_floordiv(a, b):
    if z3.is_int_value(b):
        return a / b if b.as_long() > 0 else (-a) / z3.IntVal(-b.as_long())
    return z3.If(b > 0, a / b, (-a) / (-b))


def round_half_even(t):
    """t: Real -> Int"""
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal(Fraction(1, 2))
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


class SymNum(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    # --- arithmetic
    def _bin(self, o, f, swap=False):
        c = _coerce(self, o) if (is_num(o) or isinstance(o, (Sym, bool))) else None
        if c is None:
            if isinstance(o, complex) or type(o).__name__.startswith("complex"):
                from engine.garr import CNum

                x = CNum(self, 0)
                y = CNum(o.real, o.imag)
                return f(y, x) if swap else f(x, y)
            return NotImplemented
        a, b = c
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _chk(b):
        if z3.is_int_value(b) or z3.is_rational_value(b):
            if b.as_fraction() == 0 if z3.is_rational_value(b) else b.as_long() == 0:
                raise ZeroDivisionError("division by zero")
            return
        if cur().fork(b == 0):
            raise ZeroDivisionError("division by zero")

    def __truediv__(self, o):
        def f(a, b):
            if not z3.is_expr(a):
                return a / b
            self._chk(b)
            return divide(a, b)

        return self._bin(o, f)

    def __rtruediv__(self, o):
        def f(a, b):
            if not z3.is_expr(a):
                return a / b
            self._chk(b)
            return divide(a, b)

        return self._bin(o, f, True)

    @staticmethod
    def _fd(a, b):
        SymNum._chk(b)
        if a.sort() == z3.IntSort():
            return int_floordiv(a, b)
        return z3.ToReal(z3.ToInt(a / b))

    @staticmethod
    def _md(a, b):
        SymNum._chk(b)
        if a.sort() == z3.IntSort():
            if z3.is_int_value(b) and b.as_long() > 0:
                return a % b
            return a - b * int_floordiv(a, b)
        return a - b * z3.ToReal(z3.ToInt(a / b))

    def __floordiv__(self, o):
        return self._bin(o, self._fd)

    def __rfloordiv__(self, o):
        return self._bin(o, self._fd, True)

    def __mod__(self, o):
        return self._bin(o, self._md)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, self._md, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            o = o.__index__() if isinstance(o, SymInt) else o
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if not isinstance(o, Sym) and isinstance(o, float) and o.is_integer() and 0 <= o <= 8:
            return as_real(self.__pow__(int(o)))
        if isinstance(o, int) and -4 <= o < 0:
            return 1 / self.__pow__(-o)
        raise Unsupported(f"symbolic ** {o}")

    def __rpow__(self, o):
        return o ** self.__index__()

    # --- comparison
    def _cmp(self, o, f):
        if not (is_num(o) or isinstance(o, (Sym, bool))):
            return NotImplemented
        if not isinstance(o, Sym) and isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return f(0, o) if math.isinf(o) else False
        a, b = _coerce(self, o)
        return wrap(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, complex):
            return and_(self == o.real, o.imag == 0)
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __bool__(self):
        return cur().fork(self.t != 0)

    # --- conversions
    def __hash__(self):
        return hash(cur().concretize(self))

    def __repr__(self):
        return cur().token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return cur().token(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return cur().concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(cur().concretize(self))

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported("round(int, -n)")

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def is_integer(self):
        return True

    def bit_length(self):
        return cur().concretize(self).bit_length()

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return cur().concretize(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Sym):
            o = o.__index__()
        return cur().concretize(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, Sym):
            o = o.__index__()
        return cur().concretize(self) ^ o

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def as_integer_ratio(self):
        return self, 1

    def item(self):
        return self


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        return float(cur().concretize(self))

    def __int__(self):
        return int(cur().concretize(wrap(trunc(self.t))))

    def __round__(self, n=None):
        t = nonlinear_canon(self.t)
        if n is None:
            return wrap(round_half_even(t))
        n = int(n)
        p = Fraction(10) ** n
        return wrap(z3.ToReal(round_half_even(t * z3.RealVal(p))) / z3.RealVal(p))

    def rint(self):
        return wrap(z3.ToReal(round_half_even(self.t)))

    def __floor__(self):
        return wrap(z3.ToInt(nonlinear_canon(self.t)))

    def floor(self):
        return wrap(z3.ToReal(z3.ToInt(nonlinear_canon(self.t))))

    def __ceil__(self):
        return wrap(-z3.ToInt(-nonlinear_canon(self.t)))

    def ceil(self):
        return wrap(z3.ToReal(-z3.ToInt(-self.t)))

    def __trunc__(self):
        return wrap(trunc(self.t))

    def is_integer(self):
        return wrap(z3.IsInt(self.t))

    def sqrt(self):
        return cur().sqrt(self)

    def item(self):
        return self


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def nonlinear_canon(t):
    """products and quotients of unknowns that provably equal an earlier one are replaced by it"""
    todo, n = [t], 0
    while todo:
        e = todo.pop()
        n += 1
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)) or k == z3.Z3_OP_MUL and sum(
                not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in e.children()) > 1:
            from engine import garr

            return garr.canon(t)
        if n > 60:
            break
        todo.extend(e.children())
    return t


def as_real(x):
    if isinstance(x, Sym):
        return SymReal(z3.simplify(to_real(to_arith(x.t))))
    return float(x) if isinstance(x, int) else x


def as_int(x):
    """int(x) semantics"""
    if isinstance(x, SymBool):
        return num(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return wrap(trunc(x.t))
    return int(x)


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    raise Unsupported(f"model value {v}")


class Path:
    """One symbolic execution path: decision prefix, path condition, obligations."""

    FORK_TIMEOUT = 3000
    PROVE_TIMEOUT = 20000

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.FORK_TIMEOUT)
        self.pc = []
        self.tokens = {}
        self.fresh_n = 0
        self.inputs = {}  # name -> symbolic input
        self.depth_guard = 0
        self.notes = []

    # -- path condition
    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.ex.solver_time += time.time() - t
        self.ex.queries += 1
        return r

    def assume(self, c):
        c = boolterm(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.check() == z3.unsat:
            raise Infeasible()

    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.taken.append(b)
            self.add(cond if b else z3.Not(cond))
            return b
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Budget("time")
        if i > self.ex.max_depth:
            raise Budget("fork depth")
        rt = self.check(cond)
        rf = self.check(z3.Not(cond))
        if rt == z3.unsat and rf == z3.unsat:
            raise Infeasible()
        if rt == z3.unsat:
            b = False
        elif rf == z3.unsat:
            b = True
        else:
            b = True
            self.ex.push(self.taken + [False])
        self.taken.append(b)
        self.add(cond if b else z3.Not(cond))
        return b

    def choose(self, n):
        """non-deterministic choice in range(n) (both outcomes explored)"""
        for k in range(n - 1):
            v = z3.Bool(f"choice!{self.uid()}")
            if self.fork(v):
                return k
        return n - 1

    def uid(self):
        self.fresh_n += 1
        return self.fresh_n

    def fresh(self, sort, name="h"):
        nm = f"{name}!{self.uid()}"
        if sort == "int":
            return SymInt(z3.Int(nm))
        if sort == "real":
            return SymReal(z3.Real(nm))
        if sort == "bool":
            return SymBool(z3.Bool(nm))
        raise ValueError(sort)

    def concretize(self, x, limit=64):
        """all values a symbolic number can have on this path, one path each"""
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        self.nconc = getattr(self, "nconc", 0) + 1
        key = (tuple(self.taken), self.nconc)  # (the how manyeth on this path: paths are replayed deterministically)
        vals = self.ex.cand.get(key)
        if vals is None:
            vals = []
            self.solver.push()
            try:
                while True:
                    r = self.check()
                    if r == z3.unsat:
                        break
                    if r != z3.sat:
                        raise Unsupported("cannot concretize (solver)")
                    v = model_value(self.solver.model(), t)
                    if len(vals) >= limit:
                        raise Unsupported(f"concretization of a symbolic value with > {limit} values: {t}")
                    vals.append(v)
                    self.solver.add(t != (z3.IntVal(v) if t.sort() == z3.IntSort() else z3.RealVal(v)))
            finally:
                self.solver.pop()
            vals.sort()
            self.ex.cand[key] = vals
        if not vals:
            raise Infeasible()
        for v in vals[:-1]:
            vt = z3.IntVal(v) if t.sort() == z3.IntSort() else z3.RealVal(v)
            if self.fork(t == vt):
                break
        else:
            v = vals[-1]
        return v if t.sort() == z3.IntSort() else float(v)

    def token(self, x, spec=""):
        k = f"\u27e6{len(self.tokens)}\u27e7"
        self.tokens[k] = (x, spec)
        return k

    def sqrt(self, x):
        if cur().fork(x.t < 0):
            raise Unsupported("sqrt of a negative value")
        r = self.fresh("real", "sqrt")
        self.add(z3.And(r.t >= 0, r.t * r.t == to_real(x.t)))
        return r
