"""Run-time hooks behind ``__vc__`` (see transform.py) and the models of builtins."""
from __future__ import annotations

import builtins
import cmath
import functools
import math
import sys
import warnings

import re

import numpy as np

from engine import sym as S
from engine.sym import Sym, SymBool, SymInt, SymNum, SymReal, Unsupported, Infeasible, PathEnd, z3

STUBS = {}
UNROLL = 400


def reset():
    STUBS.clear()


def add_stub(f, handler):
    f = getattr(f, "__func__", f)
    STUBS[id(f)] = (f, handler)


def is_sym(x):
    return isinstance_sym(x)


def isinstance_sym(x):
    return type(x) in (SymInt, SymReal, SymBool)


def _any_sym(a, k):
    for x in a:
        if type(x) in _SYMT:
            return True
    for x in k.values():
        if type(x) in _SYMT:
            return True
    return False


_SYMT = (SymInt, SymReal, SymBool)


# --------------------------------------------------------------------- call
def call(f, /, *a, **k):
    if STUBS:
        g = getattr(f, "__func__", None)
        st = STUBS.get(id(g if g is not None else f))
        if st is not None:
            if g is not None:
                return st[1](f.__self__, *a, **k)
            return st[1](*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(f, *a, **k)
    return f(*a, **k)


MODELS = {}


def model(*fs):
    def deco(h):
        for f in fs:
            MODELS[f] = h
        return h

    return deco


@model(len)
def _len(f, x):
    if hasattr(type(x), "__vc_len__"):
        return x.__vc_len__()
    return len(x)


@model(int)
def _int(f, *a, **k):
    if a and type(a[0]) in _SYMT:
        return S.as_int(a[0])
    if a and isinstance(a[0], str) and a[0] in _tokens():
        return S.as_int(_tokens()[a[0]][0])
    return int(*a, **k)


def _tokens():
    return S.CUR.tokens if S.CUR is not None else {}


@model(float)
def _float(f, *a):
    if a and type(a[0]) in _SYMT:
        return S.as_real(S.num(a[0]))
    return float(*a)


@model(bool)
def _bool(f, *a):
    return bool(*a)


@model(np.float64, np.float32)
def _npf(f, *a):
    if a and type(a[0]) in _SYMT:
        return S.as_real(S.num(a[0]))
    return f(*a)


@model(np.int64, np.int32, np.uint32, np.uint64)
def _npi(f, *a):
    if a and type(a[0]) in _SYMT:
        return S.as_int(a[0])
    return f(*a)


@model(complex)
def _complex(f, *a):
    if any(type(x) in _SYMT for x in a):
        from engine.garr import CNum

        return CNum(a[0], a[1] if len(a) > 1 else 0)
    return complex(*a)


@model(type)
def _type(f, *a):
    if len(a) == 1 and type(a[0]) in _SYMT:
        return a[0].__class__
    return type(*a)


@model(range)
def _range(f, *a):
    if any(type(x) in _SYMT for x in a):
        return SymRange(*a)
    return range(*a)


@model(enumerate)
def _enumerate(f, x, start=0):
    if isinstance(x, SymIter):
        return MapSeq(x, lambda i, v: (i + start, v))
    return enumerate(x, start)


@model(zip)
def _zip(f, *xs, **k):
    if any(isinstance(x, SymIter) for x in xs):
        if all(isinstance(x, (SymIter, builtins.range)) for x in xs):
            return ZipSeq(xs)
        out = []
        for i in range(min(len(x) for x in xs if not isinstance(x, SymIter))):
            if not all(bool(i < x.n) for x in xs if isinstance(x, SymIter)):
                break
            out.append(builtins.tuple(x.at(i) if isinstance(x, SymIter) else x[i] for x in xs))
        return iter(out)
    return zip(*xs, **k)


@model(map)
def _map(f, fn, x, *more):
    if isinstance(x, SymIter) and not more:
        return x.map(fn) if isinstance(x, ConcatSeq) else MapSeq(x, lambda i, v: call(fn, v))
    return f((lambda *v: call(fn, *v)), x, *more) if callable(fn) else f(fn, x, *more)


@model(list, tuple)
def _list(f, *a):
    if a and isinstance(a[0], SymIter):
        return a[0]
    return f(*a)


@model(sorted)
def _sorted(f, x, **k):
    if isinstance(x, SymIter):
        raise Unsupported("sorted() of a symbolic sequence")
    return sorted(x, **k)


@model(sum)
def _sum(f, x, start=0):
    if isinstance(x, SymIter):
        return x.vc_sum(start)
    return sum(x, start)


@model(any)
def _any(f, x):
    if isinstance(x, SymIter):
        return x.vc_any()
    return any(x)


@model(all)
def _all(f, x):
    if isinstance(x, SymIter):
        return x.vc_all()
    return all(x)


def _minmax(which):
    def h(f, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymIter):
            return a[0].vc_minmax(which, k)
        if k or len(a) == 1:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if set(k) - {"default"} or not any(type(x) in _SYMT for x in xs):
                if len(a) == 1:
                    return f(xs, **k)
                return f(*a, **k)
        else:
            xs = list(a)
        if not xs or not any(type(x) in _SYMT for x in xs):
            return f(xs, **k) if len(a) == 1 else f(*a, **k)
        inf = [x for x in xs if type(x) not in _SYMT and isinstance(x, float) and math.isinf(x)]
        for x in inf:
            if (x < 0) == (which == "min"):
                return x
        if inf:
            xs = [x for x in xs if not any(x is y for y in inf)]
        if any(S.term(x) is None for x in xs):
            return f(xs)
        r = xs[0]
        for x in xs[1:]:
            c = (x < r) if which == "min" else (x > r)
            if type(r) in _SYMT and type(x) in _SYMT or S.is_num(x) or S.is_num(r):
                ta, tb = S.term(x), S.term(r)
                if ta.sort() == tb.sort():
                    r = S.ite(c, x, r)
                    continue
            r = x if c else r
        return r

    return h


MODELS[min] = _minmax("min")
MODELS[max] = _minmax("max")


@model(abs, np.abs, np.absolute, math.fabs)
def _abs(f, x, *a, **k):
    if type(x) in _SYMT:
        return abs(S.num(x))
    return f(x, *a, **k)


@model(round, np.round, np.around)
def _round(f, x, n=None, **k):
    if type(x) in _SYMT:
        if f is not round:
            return S.as_real(round(S.num(x), n or 0)) if type(x) is SymReal else x
        return round(S.num(x), n)
    if n is None:
        return f(x, **k)
    return f(x, n, **k)


@model(np.rint)
def _rint(f, x, *a, **k):
    if type(x) in _SYMT:
        return S.as_real(round(S.num(x)))
    return f(x, *a, **k)


@model(math.floor)
def _floor(f, x):
    return x.__floor__() if type(x) in _SYMT else math.floor(x)


@model(math.ceil)
def _ceil(f, x):
    return x.__ceil__() if type(x) in _SYMT else math.ceil(x)


@model(math.trunc)
def _trunc(f, x):
    return x.__trunc__() if type(x) in _SYMT else math.trunc(x)


@model(np.floor)
def _npfloor(f, x, *a, **k):
    return S.as_real(x.__floor__()) if type(x) in _SYMT else np.floor(x, *a, **k)


@model(np.ceil)
def _npceil(f, x, *a, **k):
    return S.as_real(x.__ceil__()) if type(x) in _SYMT else np.ceil(x, *a, **k)


@model(math.isclose)
def _isclose(f, a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if any(type(x) in _SYMT for x in (a, b, rel_tol, abs_tol)):
        d = _abs(abs, a - b)
        m = _minmax("max")(max, _abs(abs, S.as_real(a)), _abs(abs, S.as_real(b)))
        return S.or_(d <= m * S.frac(rel_tol), d <= abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


@model(np.isclose, np.allclose)
def _npisclose(f, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if type(a) in _SYMT or type(b) in _SYMT:
        if not (S.term(a) is not None and S.term(b) is not None):
            raise Unsupported("np.isclose on arrays of symbolic values")
        d = _abs(abs, a - b)
        return d <= _abs(abs, S.as_real(b)) * S.frac(rtol) + S.frac(atol)
    return f(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


@model(math.isnan, np.isnan, math.isinf, np.isinf)
def _isnan(f, x, *a, **k):
    if type(x) in _SYMT:
        return False
    return f(x, *a, **k)


@model(math.isfinite, np.isfinite)
def _isfin(f, x, *a, **k):
    if type(x) in _SYMT:
        return True
    return f(x, *a, **k)


@model(np.isreal)
def _isreal(f, x):
    return True if type(x) in _SYMT else np.isreal(x)


@model(np.iscomplex, np.iscomplexobj)
def _iscomplex(f, x):
    return False if type(x) in _SYMT else f(x)


@model(np.isscalar)
def _isscalar(f, x):
    return True if type(x) in _SYMT else np.isscalar(x)


@model(np.real)
def _npreal(f, x):
    return x if type(x) in _SYMT else np.real(x)


@model(np.imag)
def _npimag(f, x):
    return 0 if type(x) in _SYMT else np.imag(x)


@model(math.sqrt, np.sqrt)
def _sqrt(f, x, *a, **k):
    if type(x) in _SYMT:
        return S.CUR.sqrt(x)
    return f(x, *a, **k)


@model(np.mod, np.remainder)
def _npmod(f, a, b, *r, **k):
    if type(a) in _SYMT or type(b) in _SYMT:
        return a % b
    return f(a, b, *r, **k)


@model(np.deg2rad, math.radians)
def _deg2rad(f, x, *a, **k):
    if type(x) in _SYMT:
        return x * S.frac(math.pi) / 180
    return f(x, *a, **k)


@model(np.rad2deg, math.degrees)
def _rad2deg(f, x, *a, **k):
    if type(x) in _SYMT:
        return x * 180 / S.frac(math.pi)
    return f(x, *a, **k)


@model(np.sign)
def _sign(f, x, *a, **k):
    if type(x) in _SYMT:
        return S.ite(x > 0, 1, S.ite(x < 0, -1, 0))
    return f(x, *a, **k)


@model(math.gcd, math.log, math.log2, math.log10, np.log, np.log2, np.log10, math.pow, np.sum)
def _unsup(f, *a, **k):
    if any(type(x) in _SYMT for x in a):
        raise Unsupported(f"{getattr(f, '__name__', f)} of a symbolic value")
    return f(*a, **k)


@model(isinstance)
def _isinst(f, x, c):
    return isinstance(x, c)


@model(warnings.warn)
def _warn(f, *a, **k):
    return f(*a, **k)


@model(hash)
def _hash(f, x):
    """hash() of symbolic content identifies the term (a content identity; see DESIGN.md)"""
    return hash(_strip(x))


def _strip(x):
    if type(x) in _SYMT:
        return "sym:" + z3.simplify(x.t).sexpr()
    if type(x) is str and "\u27e6" in x:  # text with symbolic values in it
        return re.sub("\u27e6[0-9]+\u27e7", lambda m: repr([_strip(e) for e in S.cur().tokens[m[0]]]), x)
    if type(x) is tuple:
        return tuple(_strip(e) for e in x)
    if type(x) is frozenset:
        return frozenset(_strip(e) for e in x)
    return x


# ----------------------------------------------------------------- operators
def contains(x, c):
    if type(c) is range and type(x) in _SYMT:
        return SymRange(c.start, c.stop, c.step).vc_contains(x)
    h = getattr(type(c), "__vc_contains__", None)
    if h is not None:
        return h(c, x)
    if type(x) in _SYMT and isinstance(c, (list, tuple)):
        r = False
        for e in c:
            q = x == e
            if q is True:
                return True
            if q is False:
                continue
            r = S.or_(r, q)
        return r
    return x in c


def is_(a, b):
    if type(a) is SymBool and isinstance(b, bool):
        return a == b
    return a is b


# --------------------------------------------------------------- sequences
class Poison:
    """value of a local that is not covered by a loop invariant"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"local '{object.__getattribute__(self, '_n')}' is not described by the loop contract")

    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _bad
    __iter__ = __len__ = __getitem__ = __setitem__ = __call__ = __float__ = __int__ = __index__ = __str__ = _bad
    __contains__ = __hash__ = __format__ = __setattr__ = __repr__ = __truediv__ = __mod__ = __rmul__ = _bad

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


class Ghost:
    """abstract value of a local described by a loop contract: whatever it does not define is out of reach"""

    def _bad(self, *a, **k):
        raise Unsupported(f"{type(self).__name__}: the code uses this local in a way its loop contract does not describe")

    __bool__ = __add__ = __radd__ = __sub__ = __or__ = __and__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __iter__ = __len__ = __getitem__ = __setitem__ = __delitem__ = __contains__ = __iadd__ = __ior__ = __isub__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


class SymIter:
    """unbounded symbolic iterable; ``n`` symbolic length, ``at(i)`` element"""

    spec = None

    def __iter__(self):
        raise Unsupported(f"native iteration over the unbounded sequence {self!r}")

    def __vc_len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        n = S.CUR.concretize(self.n) if isinstance(self.n, Sym) else self.n
        return n

    def vc_sum(self, start):
        raise Unsupported("sum() of a symbolic sequence without a contract")

    def vc_minmax(self, which, k):
        """the least or greatest element: some element of the sequence, with every other one on its one side"""
        if set(k) - {"default"}:
            raise Unsupported(f"{which}() with a key of a symbolic sequence")
        if not bool(self.n > 0):
            if "default" in k:
                return k["default"]
            raise ValueError(f"{which}() iterable argument is empty")
        i = S.CUR.fresh("int", "at")
        S.CUR.assume(S.and_(i >= 0, i < self.n))
        m = self.at(i)
        if type(m) not in (SymInt, SymReal):
            raise Unsupported(f"{which}() of a symbolic sequence of {type(m).__name__}")
        self.forall(lambda j: bool(self.at(j) >= m if which == "min" else self.at(j) <= m))
        return m

    def forall(self, fact):
        """assume a fact about every index of the sequence"""
        root = self.root()
        if not isinstance(root, SymSeq):
            raise Unsupported("a fact about every element of " + type(root).__name__)
        root.universal.append(fact)
        for t in list(root.terms.values()):
            if not fact(SymInt(t)):
                raise Infeasible()

    def __add__(self, o):
        if not isinstance(o, SymIter):
            raise Unsupported("concatenation of a symbolic sequence and another object")
        return ConcatSeq([self, o])

    def vc_any(self):
        return _exists(self, True)

    def vc_all(self):
        return S.not_(_exists(self, False)) if False else not _exists(self, False)

    def facts_at(self, i):
        pass


def _exists(seq, want):
    """does some element have truth value ``want``; witness on the positive branch,
    universal fact (instantiated through ``seq.facts``) on the negative one"""
    p = S.CUR
    b = p.fresh("bool", "ex")
    if p.fork(b.t):
        i = p.fresh("int", "wit")
        p.assume(S.and_(i >= 0, i < seq.n))
        v = seq.at(i)
        if bool(v) != want:
            raise Infeasible()
        return True
    root = seq.root()
    root.universal.append(lambda i: bool(seq.at(i)) != want)
    return False


class SymSeq(SymIter):
    def __init__(self, name, n, make, spec, vc):
        self.name = name
        self.n = n
        self.make = make
        self.spec = spec
        self.vc = vc
        self.memo = {}
        self.terms = {}
        self.universal = []

    @property
    def __class__(self):
        return builtins.list

    def root(self):
        return self

    def at(self, i):
        t = S.term(i)
        key = z3.simplify(t).sexpr()
        if key not in self.memo:
            # elements at equal indices are the same object: split on aliasing with the known indices
            for k2, t2 in list(self.terms.items()):
                if S.CUR.fork(t == t2):
                    return self.memo[k2]
            self.terms[key] = t
            self.memo[key] = self.make(i, f"{self.name}[{key}]")
            for u in list(self.universal):
                if not u(i):
                    raise Infeasible()
        return self.memo[key]

    def __getitem__(self, i):
        if isinstance(i, slice):
            if type(i.start) is int and i.start >= 0 and i.stop is None and i.step is None:
                return Tail(self, i.start)
            raise Unsupported("slice of an unbounded sequence")
        n = self.n
        if S.is_num(i) and i < 0:
            if not bool(n >= -i):
                raise IndexError("list index out of range")
            return self.at(n + i)
        if not bool(S.and_(i >= 0, i < n)):
            if bool(S.and_(i < 0, i >= -n)):
                return self.at(n + i)
            raise IndexError("list index out of range")
        return self.at(i)


class Tail(SymIter):
    """all but the first elements; the loop contract counts the elements of the whole sequence"""

    def __init__(self, base, start):
        self.base, self.start = base, start
        d = base.n - start
        self.n = S.ite(d > 0, d, 0) if isinstance(d, Sym) else max(0, d)
        sp = base.spec
        self.spec = sp and LoopSpec(lambda st, k: sp.inv(st, k + start), sp.havoc, sp.entry, sp.reals, sp.modifies, sp.label)

    @property
    def __class__(self):
        return builtins.list

    def root(self):
        return self.base.root()

    def at(self, i):
        return self.base.at(i + self.start)

    def __getitem__(self, i):
        if isinstance(i, slice) or S.is_num(i) and i < 0:
            raise Unsupported("slice of an unbounded sequence")
        return self.base[i + self.start]


class SymRange(SymIter):
    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a
        if isinstance(self.step, Sym) or self.step <= 0:
            raise Unsupported("range() with a symbolic or negative step")
        d = self.stop - self.start
        c = -((-d) // self.step)
        self.n = S.ite(c > 0, c, 0) if isinstance(c, Sym) else max(0, c)
        self.universal = []

    @property
    def __class__(self):
        return range

    def root(self):
        return self

    def at(self, i):
        return self.start + i * self.step

    def __getitem__(self, i):
        return self.at(i)

    def vc_contains(self, x):
        return S.and_(x >= self.start, x < self.stop, (x - self.start) % self.step == 0)

    __vc_contains__ = vc_contains

    def __iter__(self):
        n = S.CUR.concretize(self.n) if isinstance(self.n, Sym) else self.n
        return iter([self.at(i) for i in builtins.range(n)])

    def __eq__(self, o):
        return S.and_(self.start == o.start, self.stop == o.stop, self.step == o.step)


class MapSeq(SymIter):
    def __init__(self, base, fn):
        self.base = base
        self.n = base.n
        self.fn = fn
        self.spec = base.spec

    def root(self):
        return self.base.root()

    def at(self, i):
        return self.fn(i, self.base.at(i))

    def __getitem__(self, i):
        return self.fn(i, self.base[i])

    def vc_sum(self, start):
        sp = getattr(self.root(), "sum_model", None)
        if sp is None:
            raise Unsupported("sum() over a mapped symbolic sequence without a contract")
        return sp(self, start)


class ConcatSeq(SymIter):
    """one sequence after another"""

    def __init__(self, parts):
        self.parts = [q for p in parts for q in (p.parts if isinstance(p, ConcatSeq) else [p])]
        self.n = functools.reduce(lambda a, b: a + b, [p.n for p in self.parts])

    @property
    def __class__(self):
        return builtins.list

    def at(self, i):
        for p in self.parts[:-1]:
            if bool(i < p.n):
                return p.at(i)
            i = i - p.n
        return self.parts[-1].at(i)

    def map(self, fn):
        return ConcatSeq([MapSeq(p, lambda i, v: call(fn, v)) for p in self.parts])

    def vc_minmax(self, which, k):
        some = [p for p in self.parts if bool(p.n > 0)]
        if not some:
            return super().vc_minmax(which, k)
        return call(builtins.min if which == "min" else builtins.max, [p.vc_minmax(which, {}) for p in some])


class ZipSeq(SymIter):
    def __init__(self, xs):
        self.xs = xs
        n = xs[0].n if isinstance(xs[0], SymIter) else len(xs[0])
        for x in xs[1:]:
            m = x.n if isinstance(x, SymIter) else len(x)
            n = S.ite(m < n, m, n)
        self.n = n

    def root(self):
        return next((x.root() for x in self.xs if isinstance(x, SymSeq)), self)

    def at(self, i):
        return builtins.tuple(x.at(i) if isinstance(x, SymIter) else x[i] for x in self.xs)


class DictSeq(Ghost):
    """``{key(j): value(j) for j < n}``; who takes it up has to know what to do with it"""

    def __init__(self, seq):
        self.seq, self.n = seq, seq.n

    def vc_at(self, j):
        return self.seq.at(j)


def comp(kind, it, elt, cond):
    if isinstance(it, SymIter) and kind == "dict" and cond is None and not hasattr(it, "vc_comp"):
        return DictSeq(MapSeq(it, lambda i, v: elt(v)))
    if isinstance(it, SymIter) and not (isinstance(it, SymRange) and not getattr(S.CUR, "lazy_ranges", False)):
        if kind in ("dict", "set") or cond is not None:
            h = getattr(it, "vc_comp", None)
            if h is None:
                raise Unsupported(f"filtered/{kind} comprehension over a symbolic sequence")
            return h(kind, elt, cond)
        return MapSeq(it, lambda i, v: elt(v))
    if kind == "list":
        if cond is None:
            return [elt(x) for x in it]
        return [elt(x) for x in it if cond(x)]
    if kind == "set":
        if cond is None:
            return {elt(x) for x in it}
        return {elt(x) for x in it if cond(x)}
    if kind == "dict":
        if cond is None:
            return dict(elt(x) for x in it)
        return dict(elt(x) for x in it if cond(x))
    if cond is None:
        return (elt(x) for x in it)
    return (elt(x) for x in it if cond(x))


# ------------------------------------------------------------------- loops
class PlainLoop:
    __slots__ = ("it",)
    cut = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class LoopSpec:
    """Contract of a loop over a SymSeq.

    inv(st, k)   -> iterable of (label, condition): the invariant after k elements
    havoc(st)    -> dict name -> value for locals (beyond the default numeric havoc) and
                    havocs heap state owned by the spec itself
    ``st`` gives access to the values of the locals of the frame that runs the loop.
    """

    reals = ()
    frame_ok = ()

    def __init__(self, inv, havoc=None, entry=None, reals=(), modifies=(), label="loop"):
        self.inv = inv
        self.havoc = havoc
        self.entry = entry
        self.reals = reals
        self.modifies = modifies
        self.label = label


class State(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise Unsupported(f"loop contract refers to local '{n}' which this tree does not have") from None


class CutLoop:
    cut = True

    def __init__(self, seq, names, stored, targets, line):
        self.seq = seq
        self.names = names
        self.stored = stored
        self.targets = targets
        self.line = line
        self.state = "new"
        self.vals = None

    def __iter__(self):
        return self

    def _frame_locals(self):
        return sys._getframe(2).f_locals

    def __next__(self):
        spec = self.seq.spec
        p = S.CUR
        loc = State(self._frame_locals())
        if self.state == "new":
            if spec.entry:
                spec.entry(loc)
            for lab, c in spec.inv(loc, 0):
                p.vc.prove(f"{spec.label}:init:{lab}", c)
            b = p.fresh("bool", "iterate")
            it = p.fork(b.t)
            self.pre = loc
            new = {}
            for n in self.stored:
                if n in self.targets:
                    new[n] = Poison(n)
                    continue
                v = loc.get(n, None) if n in loc else Poison(n)
                if n not in loc:
                    new[n] = v
                elif n in spec.reals or type(v) in (float, SymReal, np.float64):
                    new[n] = p.fresh("real", n)
                elif type(v) in (bool, SymBool):
                    new[n] = p.fresh("bool", n)
                elif type(v) in (int, SymInt):
                    new[n] = p.fresh("int", n)
                else:
                    new[n] = Poison(n)
            st = State(loc)
            st.update(new)
            d = {}
            if spec.havoc:
                d = spec.havoc(st) or {}
                st.update(d)
                new.update(d)
            self.vals = tuple(new[n] if n in new else (loc[n] if n in loc else Poison(n)) for n in self.names)
            n = self.seq.n
            if it:
                k = p.fresh("int", "k")
                p.assume(S.and_(k >= 0, k < n))
                self.k = k
                for lab, c in spec.inv(st, k):
                    p.assume(c)
                self.state = "iter"
                elem = self.seq.at(k)
                self.snap = snapshot(st, [*spec.modifies, *d.values()])  # (what the contract havocs may change)
                return elem
            for lab, c in spec.inv(st, n):
                p.assume(c)
            self.state = "exit"
            raise StopIteration
        if self.state == "iter":
            for lab, c in spec.inv(loc, self.k + 1):
                p.vc.prove(f"{spec.label}:step:{lab}", c)
            self.check_frame(loc, spec)
            raise PathEnd()
        raise StopIteration

    def rebind(self):
        return self.vals

    rebind_exit = rebind

    def check_frame(self, loc, spec):
        for obj, kind, old in self.snap:
            if kind == "d":
                if dict(obj) != old if not _has_sym(obj) else not _same(dict(obj), old):
                    raise Unsupported("loop body modifies a dict outside its frame")
            elif kind == "l":
                if len(obj) != len(old) or any(a is not b for a, b in zip(obj, old)):
                    raise Unsupported("loop body modifies a list outside its frame")
            elif kind == "o":
                now = vars(obj)
                if len(now) != len(old) or any(n not in old or now[n] is not old[n] for n in now):
                    raise Unsupported(f"loop body modifies a {type(obj).__name__} outside its frame")


def _has_sym(d):
    return True


def _same(a, b):
    return len(a) == len(b) and all(k in b and a[k] is b[k] for k in a)


def snapshot(loc, modifies):
    """identity snapshot of the mutable containers reachable from the frame"""
    out = []
    seen = set()
    skip = {id(m) for m in modifies}

    def walk(x, d):
        if id(x) in seen or id(x) in skip or d > 5:
            return
        if isinstance(x, (Poison, SymIter)) or type(x) in _SYMT:
            return
        t = type(x)
        if t is dict:
            seen.add(id(x))
            out.append((x, "d", dict(x)))
            for v in list(x.values()):
                walk(v, d + 1)
        elif t in (list,):
            seen.add(id(x))
            out.append((x, "l", list(x)))
            for v in x:
                walk(v, d + 1)
        elif t is tuple:
            for v in x:
                walk(v, d + 1)
        elif hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x) and t.__module__ not in (
            "builtins", "engine.core") and not t.__module__.startswith("engine"):
            seen.add(id(x))
            out.append((x, "o", dict(vars(x))))
            for v in list(vars(x).values()):
                walk(v, d + 1)

    for n, v in list(loc.items()):
        if not n.startswith("_vc_"):
            walk(v, 0)
    return out


def for_loop(it, names, stored, targets, line):
    if hasattr(type(it), "vc_iter") and isinstance(it.n, Sym):
        it = it.vc_iter()
    if isinstance(it, SymIter):
        if isinstance(it, SymRange) or it.spec is None:
            spec = it.spec or _spec_for_length(it)
            if spec is None and isinstance(it, SymRange):
                return PlainLoop(it)  # concretizes its length or raises Unsupported
            if spec is None:
                raise Unsupported(f"loop at line {line} over a symbolic sequence without a loop contract")
            it.spec = spec
        return CutLoop(it, names, stored, targets, line)
    return PlainLoop(it)


RANGE_SPECS = []  # (length term, spec) registered by harnesses


def _spec_for_length(r):
    p = S.CUR
    for n, spec in getattr(p, "range_specs", ()):
        if p.check(S.term(r.n) != S.term(n)) == z3.unsat:
            return spec
    return None


class WhileLoop:
    __slots__ = ("n", "line")

    def __init__(self, line):
        self.n = 0
        self.line = line

    def tick(self):
        self.n += 1
        if S.CUR is not None and self.n > UNROLL:
            raise Unsupported(f"while loop at line {self.line} exceeds {UNROLL} unrollings")


def while_loop(line):
    return WhileLoop(line)


# decoding of formatted text -------------------------------------------------
def decode(text):
    """value of an operand that was formatted into text (symbolic placeholder or literal)"""
    if not isinstance(text, str):
        return text
    tk = _tokens()
    if text in tk:
        return tk[text][0]
    return text
