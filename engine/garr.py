"""Arrays of arbitrary length and complex numbers for the symbolic executor.

A GArr is an array given by its (symbolic) length and a function from index to element; numpy's operators and functions
on it work element by element, so that a contract about "every sample" is proved for one arbitrary index.  Reductions
(argmax, max, any, all) introduce a witness index and a universal fact, instantiated at every index of interest.
exp, cos, sin, tan and sqrt are uninterpreted (sqrt: the non-negative root); equal arguments give equal results.
"""
from __future__ import annotations

import cmath
import math
import re

import numpy as np

import engine.sym as S
from engine import rt
from engine.sym import Sym, SymBool, SymInt, SymReal, Unsupported, z3

_FN = {}


def is_cx(x):
    return isinstance(x, (CNum, complex, np.complexfloating))


def re_(x):
    return x.real if is_cx(x) else x


def im_(x):
    return x.imag if is_cx(x) else 0


def cx(re, im):
    return CNum(re, im)


class CNum:
    """complex number with symbolic parts"""

    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def conjugate(self):
        return CNum(self.real, -self.imag)

    conj = conjugate

    def __add__(self, o):
        if not _scal(o):
            return NotImplemented
        return CNum(self.real + re_(o), self.imag + im_(o))

    __radd__ = __add__

    def __sub__(self, o):
        if not _scal(o):
            return NotImplemented
        return CNum(self.real - re_(o), self.imag - im_(o))

    def __rsub__(self, o):
        if not _scal(o):
            return NotImplemented
        return CNum(re_(o) - self.real, im_(o) - self.imag)

    def __mul__(self, o):
        if not _scal(o):
            return NotImplemented
        if not is_cx(o):
            return CNum(self.real * o, self.imag * o)
        return CNum(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _scal(o):
            return NotImplemented
        if not is_cx(o):
            return CNum(self.real / o, self.imag / o)
        d = o.real * o.real + o.imag * o.imag
        return CNum((self.real * o.real + self.imag * o.imag) / d, (self.imag * o.real - self.real * o.imag) / d)

    def __rtruediv__(self, o):
        return CNum(re_(o), im_(o)) / self

    def __pow__(self, n):
        if n == 2 and not isinstance(n, Sym):
            return self * self
        raise Unsupported("complex power")

    def __neg__(self):
        return CNum(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __abs__(self):
        if not isinstance(self.imag, Sym) and self.imag == 0:
            return abs(self.real)
        return fn("sqrt", self.real * self.real + self.imag * self.imag)

    def __eq__(self, o):
        return S.and_(self.real == re_(o), self.imag == im_(o))

    def __ne__(self, o):
        return S.not_(self == o)

    def __bool__(self):
        return bool(S.or_(S.not_(self.real == 0), S.not_(self.imag == 0)))

    def __repr__(self):
        return f"({self.real} + {self.imag}j)"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return GArr.__array_ufunc__(self, ufunc, method, *inputs, **kw)

    __class__ = property(lambda self: complex)


def _scal(x):
    return type(x) in (int, float, bool, complex, CNum, SymInt, SymReal, SymBool) or isinstance(x, np.generic) \
        or type(x).__name__ == "Fraction"


def canon(t):
    """a previously seen real term that provably equals t, or t"""
    t = z3.simplify(t)
    if z3.is_rational_value(t) or z3.is_const(t) or S.CUR is None:
        return t
    p = S.cur()
    seen = p.__dict__.setdefault("canon", [])
    fp = fingerprint(t)
    for u, v in p.__dict__.get("rewrites", ()):
        if fingerprint(u) == fp and fp is not None and p.check(u != t) == z3.unsat:
            return v
    for u in seen:
        if u.eq(t):
            return u
    for u in seen:
        if fingerprint(u) == fp and fp is not None:
            p.solver.set("timeout", 5000)
            r = p.check(u != t)
            p.solver.set("timeout", p.FORK_TIMEOUT)
            if r == z3.unsat:
                return u
    seen.append(t)
    return t


def rewrite(vc, a, b):
    """assume a == b, and let rounding of a see b"""
    vc.assume(a == b)
    if vc.symbolic:
        S.cur().__dict__.setdefault("rewrites", []).append((z3.simplify(a.t), S.to_real(S.term(b))))


_FP = {}


def fingerprint(t):
    """value of a term at a fixed random point (terms with different values are not identical)"""
    import hashlib

    k = t.get_id()
    if k in _FP and _FP[k][0].eq(t):
        return _FP[k][1]
    sub, seen = [], set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e) or (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            if not (z3.is_int_value(e) or z3.is_rational_value(e)) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                h = int(hashlib.sha1(e.sexpr().encode()).hexdigest()[:6], 16) + 3
                if e.sort() == z3.IntSort():
                    sub.append((e, z3.IntVal(h)))
                elif e.sort() == z3.RealSort():
                    sub.append((e, z3.RealVal(h) / 1009))
                return
        for c in e.children():
            walk(c)

    walk(t)
    v = z3.simplify(z3.substitute(t, *sub)) if sub else z3.simplify(t)
    r = v.as_fraction() if z3.is_rational_value(v) else None
    _FP[k] = (t, r)
    return r


def fn(name, x):
    """uninterpreted elementary function of a real"""
    if not isinstance(x, Sym):
        return getattr(math, name)(x)
    t = S.to_real(S.to_arith(x.t))
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        v = t.as_fraction()
        if v == 0:
            return {"exp": 1, "cos": 1, "sin": 0, "tan": 0, "sqrt": 0}[name]
    p = S.cur()
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    seen = p.__dict__.setdefault("fn_args", {}).setdefault(name, [])
    for u in seen:
        if u.eq(t):
            return SymReal(f(u))
    fp = fingerprint(t)
    for u in seen:
        if fingerprint(u) != fp:
            continue
        p.solver.set("timeout", 5000)
        r = p.check(u != t)
        p.solver.set("timeout", p.FORK_TIMEOUT)
        if r == z3.unsat:
            return SymReal(f(u))
    seen.append(t)
    v = f(t)
    if name == "exp":
        p.add(v > 0)
    elif name in ("cos", "sin"):
        p.add(z3.And(v <= 1, v >= -1))
        c, s = z3.Function("cos", z3.RealSort(), z3.RealSort()), z3.Function("sin", z3.RealSort(), z3.RealSort())
        p.add(c(t) * c(t) + s(t) * s(t) == 1)
    elif name == "sqrt":
        if p.fork(t < 0):
            raise Unsupported("sqrt of a negative value")
        p.add(z3.And(v >= 0, v * v == t))
    return SymReal(v)


def exp(x):
    if is_cx(x):
        if not isinstance(x, CNum):
            return cmath.exp(x)
        e = fn("exp", x.real)
        return CNum(e * fn("cos", x.imag), e * fn("sin", x.imag))
    return fn("exp", x)


def real_fn(name):
    def f(x):
        if is_cx(x):
            raise Unsupported(f"{name} of a complex value")
        return fn(name, x)

    return f


def _max(a, b):
    if is_cx(a) or is_cx(b):
        raise Unsupported("maximum of complex values")
    return S.ite(a > b, a, b)


def _min(a, b):
    if is_cx(a) or is_cx(b):
        raise Unsupported("minimum of complex values")
    return S.ite(a < b, a, b)


def _floor(x):
    return S.as_real(rt.call(math.floor, x))


def _eq(a, b):
    if is_cx(a) or is_cx(b):
        return S.and_(re_(a) == re_(b), im_(a) == im_(b))
    return a == b


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    d = a - b
    if is_cx(d):
        raise Unsupported("isclose of complex values")
    return abs(d) <= S.frac(atol) + S.frac(rtol) * abs(b)


def _pow(a, b):
    if isinstance(b, Sym) or b not in (0, 1, 2, 3):
        if not isinstance(b, Sym) and b == 0.5:
            return fn("sqrt", a)
        raise Unsupported("power")
    r = 1
    for _ in range(int(b)):
        r = r * a
    return r


_AND = S.and_
UF = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b, "negative": lambda a: -a, "positive": lambda a: a,
    "absolute": abs, "fabs": abs, "exp": exp, "cos": real_fn("cos"), "sin": real_fn("sin"), "tan": real_fn("tan"),
    "sqrt": real_fn("sqrt"), "floor": _floor, "ceil": lambda x: -_floor(-x),
    "rint": lambda x: S.as_real(rt.call(round, x)), "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min,
    "equal": _eq, "not_equal": lambda a, b: S.not_(_eq(a, b)), "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "logical_and": _AND, "logical_or": S.or_, "logical_not": S.not_, "bitwise_and": _AND, "bitwise_or": S.or_,
    "invert": S.not_, "power": _pow, "square": lambda a: a * a, "conjugate": lambda a: a.conjugate() if is_cx(a) else a,
    "deg2rad": lambda x: x * S.frac(math.pi) / 180, "radians": lambda x: x * S.frac(math.pi) / 180,
    "rad2deg": lambda x: x * 180 / S.frac(math.pi), "heaviside": lambda x, h: S.ite(x < 0, 0, S.ite(x > 0, 1, h)),
    "isfinite": lambda x: True, "isnan": lambda x: False, "isinf": lambda x: False,
    "remainder": lambda a, b: a % b, "floor_divide": lambda a, b: a // b,
    "sign": lambda x: S.ite(x > 0, 1, S.ite(x < 0, -1, 0)),
}


def ghost(i):
    """an index of interest: all universal facts are instantiated there"""
    p = S.cur()
    gs = p.__dict__.setdefault("ghosts", [])
    us = p.__dict__.setdefault("universals", [])
    t = S.term(i)
    if any(S.term(g).eq(t) for g in gs):
        return i
    gs.append(i)
    for u in list(us):
        u(i)
    return i


def forall(fact):
    """fact(index) holds at every index"""
    p = S.cur()
    p.__dict__.setdefault("universals", []).append(fact)
    for g in list(p.__dict__.setdefault("ghosts", [])):
        fact(g)


def lift(x):
    return x if isinstance(x, GArr) else None


class GArr:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, n, f, kind="r"):
        self.n, self.f, self.kind = n, f, kind
        self.view = False

    # -- shape
    def __vc_len__(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, Sym):
            return S.cur().concretize(self.n)
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    ndim = 1

    @property
    def dtype(self):
        return np.dtype({"c": complex, "i": int, "b": bool}.get(self.kind, float))

    def _lift(self, g, kind=None):
        f = self.f
        return GArr(self.n, lambda i: g(f(i)), kind or self.kind)

    @property
    def real(self):
        return self._lift(re_, "r") if self.kind == "c" else self

    @property
    def imag(self):
        return self._lift(im_, "r") if self.kind == "c" else GArr(self.n, lambda i: 0, "r")

    def copy(self, *a):
        return GArr(self.n, self.f, self.kind)

    def astype(self, t, **k):
        t = np.dtype(t)
        if t.kind == "c":
            return GArr(self.n, self.f, "c")
        if t.kind == "f" and self.kind != "c":
            return self._lift(lambda x: S.as_real(S.num(x)) if isinstance(x, Sym) else float(x), "r")
        raise Unsupported(f"astype {t}")

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.f(k) for k in range(self.n)])
        raise Unsupported("iteration over an array of arbitrary length")

    def __hash__(self):
        return id(self)

    def vc_iter(self):
        """for loops over it: cut with a loop contract registered for this length"""
        return ArrIter(self)

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def tolist(self):
        return self

    # -- indexing
    def _pos(self, i):
        """index with Python's negative index rule; out of range raises"""
        j = S.ite(i < 0, self.n + i, i) if isinstance(i, Sym) else (i if i >= 0 else self.n + i)
        if not S.and_(j >= 0, j < self.n):
            raise IndexError("index out of bounds")
        return j

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("slice with a step")
        n = self.n

        def clip(v, d):
            if v is None:
                return d
            if isinstance(v, (int, np.integer)) and not isinstance(v, Sym) and v >= 0:
                return S.ite(n < v, n, v)
            v = S.ite(v < 0, S.ite(n + v < 0, 0, n + v), v)
            return S.ite(v > n, n, v)

        a, b = clip(s.start, 0), clip(s.stop, n)
        return a, S.ite(b < a, a, b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = self._slice(i)
            f = self.f
            r = GArr(b - a, lambda k: f(k + a), self.kind)
            r.view = True
            return r
        if isinstance(i, GArr):
            if i.kind == "b":
                raise Unsupported("boolean mask")
            return GArr(i.n, lambda k: self.f(i.f(k)), self.kind)
        if isinstance(i, (int, np.integer)) or isinstance(i, Sym):
            return self.f(self._pos(i))
        raise Unsupported(f"index {i!r}")

    def __setitem__(self, i, v):
        if self.view:
            raise Unsupported("assignment to a view")
        f = self.f
        if isinstance(i, slice):
            a, b = self._slice(i)
            if isinstance(v, GArr):
                if not v.n == b - a:
                    raise ValueError("could not broadcast")
                self.f = lambda k: _ite(S.and_(k >= a, k < b), lambda: v.f(k - a), lambda: f(k))
            else:
                self.f = lambda k: _ite(S.and_(k >= a, k < b), lambda: v, lambda: f(k))
            return
        j = self._pos(i)
        self.f = lambda k: _ite(k == j, lambda: v, lambda: f(k))

    # -- arithmetic
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method == "reduce" and name in ("maximum", "minimum", "logical_or", "logical_and"):
            return {"maximum": amax, "minimum": amin, "logical_or": aany, "logical_and": aall}[name](inputs[0])
        out = kw.pop("out", None)
        if method != "__call__" or name not in UF or any(v is not None for v in kw.values()):
            raise Unsupported(f"numpy {name}.{method}")
        r = elementwise(UF[name], name, *inputs)
        if out is not None:
            out = out[0]
            if not isinstance(out, GArr) or out.view:
                raise Unsupported("out=")
            out.f, out.kind = r.f, r.kind
            return out
        return r

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is None:
            raise Unsupported(f"numpy.{func.__name__} of an array of arbitrary length")
        return h(*args, **kwargs)

    def max(self):
        return amax(self)

    def min(self):
        return amin(self)

    def any(self):
        return aany(self)

    def all(self):
        return aall(self)

    def argmax(self):
        return argmax(self)

    def argmin(self):
        return argmin(self)

    def __repr__(self):
        return f"<array of length {self.n}>"


def _ite(c, a, b):
    if isinstance(c, Sym):
        x, y = a(), b()
        if is_cx(x) or is_cx(y):
            return CNum(S.ite(c, re_(x), re_(y)), S.ite(c, im_(x), im_(y)))
        return S.ite(c, x, y)
    return a() if c else b()


def elementwise(g, name, *inputs):
    arrs = [x for x in inputs if isinstance(x, GArr)]
    for x in inputs:
        if isinstance(x, np.ndarray) and x.ndim:
            raise Unsupported("mixing arrays of fixed and arbitrary length")
    inputs = [x.item() if isinstance(x, (np.ndarray, np.generic)) else x for x in inputs]
    if not arrs:
        return g(*inputs)
    n = arrs[0].n
    for b in arrs[1:]:
        if b is arrs[0] or (isinstance(n, Sym) and isinstance(b.n, Sym) and z3.simplify(n.t).eq(z3.simplify(b.n.t))):
            continue
        if not n == b.n:
            raise ValueError("operands could not be broadcast together")
    fs = [(x.f if isinstance(x, GArr) else (lambda i, x=x: x)) for x in inputs]
    kinds = {x.kind if isinstance(x, GArr) else ("c" if is_cx(x) else "r") for x in inputs}
    kind = "c" if "c" in kinds else "r"
    if name in ("absolute", "fabs"):
        kind = "r"
    if name in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "logical_and", "logical_or",
                "logical_not", "isfinite", "isnan", "isinf"):
        kind = "b"
    return GArr(n, lambda i: g(*[f(i) for f in fs]), kind)


for _n, _u in {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "divide", "pow": "power",
               "mod": "remainder", "floordiv": "floor_divide", "and": "logical_and", "or": "logical_or"}.items():
    setattr(GArr, f"__{_n}__", (lambda u: lambda self, o: _op(u, self, o))(_u))
    setattr(GArr, f"__r{_n}__", (lambda u: lambda self, o: _op(u, o, self))(_u))
    if _n not in ("and", "or"):
        setattr(GArr, f"__i{_n}__", (lambda u: lambda self, o: _iop(u, self, o))(_u))
for _n, _u in {"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal",
               "ne": "not_equal"}.items():
    setattr(GArr, f"__{_n}__", (lambda u: lambda self, o: _op(u, self, o))(_u))
for _n, _u in {"neg": "negative", "pos": "positive", "abs": "absolute", "invert": "logical_not"}.items():
    setattr(GArr, f"__{_n}__", (lambda u: lambda self: elementwise(UF[u], u, self))(_u))


def _op(u, a, b):
    for x in (a, b):
        if not isinstance(x, (GArr, np.ndarray)) and not _scal(x):
            return NotImplemented
    return elementwise(UF[u], u, a, b)


def _iop(u, a, b):
    if a.view:
        raise Unsupported("in-place operation on a view")
    r = elementwise(UF[u], u, a, b)
    if r.kind == "c" and a.kind != "c":
        raise TypeError("cannot cast complex to real in place")
    a.f = r.f
    return a


# ------------------------------------------------------------- reductions
def _arg(a, better):
    p = S.cur()
    if a.kind == "c":
        raise Unsupported("order of complex values")
    if not a.n > 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    k = p.fresh("int", "arg")
    p.add(z3.And(k.t >= 0, k.t < S.term(a.n)))
    top = a.f(k)
    forall(lambda g: p.add(S.boolterm(S.implies(S.and_(g >= 0, g < a.n), better(top, a.f(g))))))
    ghost(k)
    return k


def argmax(a, *r, **k):
    return _arg(a, lambda t, x: t >= x)


def argmin(a, *r, **k):
    return _arg(a, lambda t, x: t <= x)


def amax(a, *r, **k):
    return a.f(argmax(a))


def amin(a, *r, **k):
    return a.f(argmin(a))


def _true(x):
    if is_cx(x):
        return S.or_(S.not_(x.real == 0), S.not_(x.imag == 0))
    if isinstance(x, (SymBool, bool, np.bool_)):
        return x
    return S.not_(x == 0)


def aany(a, *r, **kw):
    p = S.cur()
    b = p.fresh("bool", "any")
    k = p.fresh("int", "wit")
    p.add(z3.Implies(b.t, z3.And(k.t >= 0, k.t < S.term(a.n), S.boolterm(_true(a.f(k))))))
    forall(lambda g: p.add(z3.Implies(z3.And(z3.Not(b.t), S.boolterm(S.and_(g >= 0, g < a.n))),
                                      z3.Not(S.boolterm(_true(a.f(g)))))))
    ghost(k)
    return b


def aall(a, *r, **kw):
    return S.not_(aany(a._lift(lambda x: S.not_(_true(x)), "b")))


def concatenate(parts, axis=0):
    parts = list(parts)
    n = 0
    pos = []
    for q in parts:
        pos.append(n)
        n = n + (q.n if isinstance(q, GArr) else len(q))
    kind = "c" if any((q.kind == "c") if isinstance(q, GArr) else np.iscomplexobj(q) for q in parts) else "r"

    def f(i):
        r = None
        for q, o in reversed(list(zip(parts, pos))):
            def el(q=q, o=o):
                if isinstance(q, GArr):
                    return q.f(i - o)
                v = 0
                for j, x in enumerate(q):
                    v = S.ite(i - o == j, x.item() if isinstance(x, np.generic) else x, v)
                return v

            r = el() if r is None else _ite(i < o + (q.n if isinstance(q, GArr) else len(q)), el, lambda r=r: r)
        return r

    return GArr(n, f, kind)


def const(n, v):
    kind = "c" if is_cx(v) else "r"
    return GArr(n, lambda i: v, kind)


def shape1(shape):
    if isinstance(shape, (tuple, list)):
        if len(shape) != 1:
            raise Unsupported("array with several dimensions")
        shape = shape[0]
    if isinstance(shape, Sym) and shape < 0:
        raise ValueError("negative dimensions are not allowed")
    return shape


def _has(x):
    return isinstance(x, Sym) or isinstance(x, CNum) or (isinstance(x, (tuple, list)) and any(_has(e) for e in x))


@rt.model(np.ones)
def _ones(f, shape, *a, **k):
    return const(shape1(shape), 1) if _has(shape) else f(shape, *a, **k)


@rt.model(np.zeros)
def _zeros(f, shape, *a, **k):
    if not _has(shape):
        return f(shape, *a, **k)
    r = const(shape1(shape), 0)
    dt = a[0] if a else k.get("dtype")
    if dt is not None and np.dtype(dt).kind == "c":
        r.kind = "c"
    return r


@rt.model(np.full)
def _full(f, shape, v, *a, **k):
    return const(shape1(shape), v) if _has(shape) or _has(v) else f(shape, v, *a, **k)


@rt.model(np.arange)
def _arange(f, *a, **k):
    if not any(_has(x) for x in (*a, *k.values())):
        return f(*a, **k)
    names = dict(zip(("start", "stop", "step"), a)) if len(a) > 1 else ({"stop": a[0]} if a else {})
    names.update({x: y for x, y in k.items() if x in ("start", "stop", "step")})
    start, stop, step = names.get("start", 0), names["stop"], names.get("step", 1)
    n = rt.call(math.ceil, (stop - start) / step)
    n = S.ite(n < 0, 0, n)
    allint = all(isinstance(x, (int, SymInt)) for x in (start, stop, step))
    return GArr(n, lambda i: start + i * step, "i" if allint else "r")


@rt.model(np.linspace)
def _linspace(f, start, stop, num=50, endpoint=True, **k):
    if not (_has(start) or _has(stop) or _has(num)):
        return f(start, stop, num, endpoint=endpoint, **k)
    d = (num - 1) if endpoint else num

    def g(i):
        return start + (stop - start) * i / d

    return GArr(num, g, "c" if is_cx(start) or is_cx(stop) else "r")


@rt.model(np.clip)
def _clip(f, a, lo=None, hi=None, *r, **k):
    if isinstance(a, GArr) or _has(a) or _has(lo) or _has(hi):
        if lo is not None:
            a = elementwise(_max, "maximum", a, lo)
        return a if hi is None else elementwise(_min, "minimum", a, hi)
    return f(a, lo, hi, *r, **k)


def _iscomplex(a, **k):
    return a._lift(lambda x: S.not_(im_(x) == 0), "b")


FUNCS = {
    "argmax": argmax, "argmin": argmin, "amax": amax, "max": amax, "amin": amin, "min": amin, "any": aany, "all": aall,
    "concatenate": concatenate, "append": lambda a, b: concatenate([a, b if isinstance(b, (GArr, np.ndarray, list, tuple)) else [b]]), "hstack": concatenate,
    "real": lambda a: a.real, "imag": lambda a: a.imag, "iscomplex": _iscomplex,
    "isreal": lambda a: a._lift(lambda x: im_(x) == 0, "b"), "iscomplexobj": lambda a: a.kind == "c",
    "isrealobj": lambda a: a.kind != "c", "zeros_like": lambda a, **k: GArr(a.n, lambda i: 0, a.kind),
    "ones_like": lambda a, **k: GArr(a.n, lambda i: 1, a.kind), "full_like": lambda a, v, **k: GArr(a.n, lambda i: v, a.kind),
    "where": lambda c, a, b: GArr(c.n, lambda i: _ite(_true(c.f(i)), lambda: a.f(i) if isinstance(a, GArr) else a,
                                                      lambda: b.f(i) if isinstance(b, GArr) else b),
                                  "c" if any(is_cx(x) or getattr(x, "kind", "") == "c" for x in (a, b)) else "r"),
    "clip": lambda a, lo, hi, **k: elementwise(_min, "minimum", elementwise(_max, "maximum", a, lo), hi),
    "isclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: _mark(elementwise(
        lambda x, y: _isclose(x, y, rtol, atol), "equal", a, b)),
    "allclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: aall(elementwise(
        lambda x, y: _isclose(x, y, rtol, atol), "equal", a, b)),
    "size": lambda a: a.n, "shape": lambda a: (a.n,), "copy": lambda a, **k: a.copy(),
    "around": lambda a, decimals=0, **k: a._lift(lambda x: rt.call(round, x, decimals)),
    "round": lambda a, decimals=0, **k: a._lift(lambda x: rt.call(round, x, decimals)),
    "array_equal": lambda a, b, **k: S.and_(a.n == b.n, aall(elementwise(_eq, "equal", a, b))),
}


def _mark(a):
    a.kind = "b"
    return a


@rt.model(np.array, np.asarray)
def _array(f, x, *a, **k):
    if isinstance(x, GArr):
        r = x.copy() if f is np.array else x
        dt = a[0] if a else k.get("dtype")
        return r if dt is None else r.astype(dt)
    if type(x) in (SymInt, SymReal):
        raise Unsupported("array of a symbolic scalar")
    return f(x, *a, **k)


def _scalar_fn(name):
    def g(f, x, *a, **k):
        if type(x) in (SymInt, SymReal) or isinstance(x, CNum):
            return UF[name](x)
        return f(x, *a, **k)

    return g


for _n, _fs in {"exp": (math.exp, np.exp, cmath.exp), "cos": (math.cos, np.cos), "sin": (math.sin, np.sin),
                "tan": (math.tan, np.tan)}.items():
    rt.model(*_fs)(_scalar_fn(_n))


# ------------------------------------------------------------- for units
def array(vc, name, kind="real", lo=-1, hi=1, nlo=1, nhi=200):
    """an arbitrary array (concrete modes: random, with repeated and boundary values)"""
    n = vc.int(f"len({name})", nlo, None if vc.symbolic else nhi)
    if vc.symbolic:
        p = S.cur()
        fr, fi = (z3.Function(f"{name}.{q}", z3.IntSort(), z3.RealSort()) for q in ("re", "im"))

        def part(f, i):
            t = f(S.term(i))
            if lo is not None:
                p.add(z3.And(t >= S.term(lo), t <= S.term(hi)))
            return SymReal(t)

        if kind == "complex":
            g = GArr(n, lambda i: CNum(part(fr, i), part(fi, i)), "c")
        else:
            g = GArr(n, lambda i: part(fr, i), "r")
        g.name = name
        return g
    n = min(n, 5000)
    special = [0.0, 0.0, lo, hi, (lo + hi) / 2]

    def col(tag):
        rs = np.random.RandomState(vc.int(f"{name}.{tag}.seed", 0, 10**6))
        v = rs.uniform(lo, hi, n)
        m = vc.choice(f"{name}.{tag}.kind", ["random", "zero", "const", "mixed", "tiny", "lsb"])
        if m == "zero":
            v = np.zeros(n)
        elif m == "const":
            v = np.full(n, v[0] if n else 0.0)
        elif m == "mixed":
            v = np.array([special[j] if j < len(special) else x for x, j in zip(v, rs.randint(0, 10, n))])
        elif m == "tiny":
            v = v * 1e-6
        elif m == "lsb":
            v = v * rs.uniform(0, 4) / 32768
        given = getattr(vc, "given", None) or {}
        for key, val in given.items():
            q = re.fullmatch(re.escape(name) + r"\[(.*)\]\." + tag, key)
            if q and q[1] in given and 0 <= given[q[1]] < n:
                v[given[q[1]]] = val
        return v

    return col("re") + 1j * col("im") if kind == "complex" else col("re")


def index(vc, arr, name="index"):
    """an arbitrary index of an array"""
    if not vc.symbolic:
        return vc.int(name, 0, len(arr) - 1)
    g = vc.int(name, 0)
    vc.assume(g < arr.n)
    ghost(g)
    if hasattr(arr, "name"):
        x = arr.f(g)
        vc.inputs[f"{arr.name}[{name}].re"] = re_(x)
        if is_cx(x):
            vc.inputs[f"{arr.name}[{name}].im"] = im_(x)
    return g


def any_(vc, arr, pred):
    """does some element satisfy pred"""
    if not vc.symbolic:
        return any(pred(x) for x in arr.tolist())
    return aany(arr._lift(pred, "b"))


def at(a, i):
    return a.f(i) if isinstance(a, GArr) else a[i].item()


def length(a):
    return a.n if isinstance(a, GArr) else len(a)


def close(vc, a, b, tol=1e-9):
    """equality of (complex) numbers: exact in proofs, within tol times the magnitude when executed"""
    if vc.symbolic:
        return S.and_(re_(a) == re_(b), im_(a) == im_(b))
    return cmath.isclose(a, b, rel_tol=tol, abs_tol=tol)


def rexp(x):
    return exp(x)


def rcos(x):
    return fn("cos", x)


def rsin(x):
    return fn("sin", x)


class ArrIter(rt.SymIter):
    def __init__(self, arr):
        self.arr, self.n = arr, arr.n
        self.universal = []

    def root(self):
        return self

    def at(self, i):
        return self.arr.f(i)

    def __getitem__(self, i):
        return self.arr[i]
