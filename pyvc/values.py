"""Symbolic values manipulated by the interpreter."""

from __future__ import annotations

import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, const


class Unsupported(Exception):
    """construct outside the supported subset (never reported as a violation)"""


class PyRaise(Exception):
    """the interpreted program raised an exception"""

    def __init__(self, exc, where=""):
        self.exc = exc
        self.where = where
        super().__init__(f"{type(exc).__name__}: {exc} {where}")


class Infeasible(Exception):
    """the current path is abandoned"""


class Journal:
    def __init__(self):
        self.log = []
        self.touched = []  # stack of dict id -> object (mutated objects)

    def mark(self):
        return len(self.log)

    def record(self, obj, undo):
        self.log.append(undo)
        for d in self.touched:
            if id(obj) not in d:
                d[id(obj)] = (obj, snapshot(obj))

    def undo(self, mark):
        while len(self.log) > mark:
            self.log.pop()()


JOURNAL = Journal()


def snapshot(o):
    """shallow copy of the mutable state of a tracked object"""
    if isinstance(o, SArr):
        return (o._fn, o.sort)
    if isinstance(o, SList):
        return (o.items, o.n, o.efn)
    if isinstance(o, SObj):
        return dict(o.attrs)
    if isinstance(o, SDict):
        return dict(o.d)
    if isinstance(o, SSet):
        return (o.items, o.pred)
    return dict(o.vars)  # Env

_ids = itertools.count()


def dim_eq(a, b):
    a = const(a) if not isinstance(a, T) else a
    b = const(b) if not isinstance(b, T) else b
    return a is b


def norm_dim(d):
    """dimension: int when constant, else T"""
    if isinstance(d, T):
        v = tm.numval(d)
        if v is not None and v.denominator == 1:
            return int(v)
        return d
    return int(d)


class SArr:
    """n-dimensional array: shape and element function"""

    def __init__(self, shape, fn, sort="R", origin=None, nan=None, view=None):
        self.shape = tuple(norm_dim(d) for d in shape)
        self._fn = fn
        self.sort = sort
        self.origin = origin
        self.nan = nan  # mask function or None
        self.view = view  # (base, index map) for basic views
        self.uid = next(_ids)

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, *idx):
        idx = tuple(const(i) if not isinstance(i, T) else i for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        r = self._fn(*idx)
        return r if isinstance(r, T) else const(r)

    def set_fn(self, fn, sort=None):
        old, olds = self._fn, self.sort
        JOURNAL.record(self, lambda: (setattr(self, "_fn", old), setattr(self, "sort", olds)))
        self._fn = fn
        if sort:
            self.sort = sort

    @property
    def fn(self):
        return self._fn

    def root(self):
        a = self
        while a.view is not None:
            a = a.view[0]
        return a

    def frozen(self):
        """immutable copy"""
        f = self._fn
        if self.view is not None:
            b, mp = self.view
            bf = b.frozen()
            return SArr(self.shape, lambda *i: bf.get(*mp(*i)), self.sort)
        return SArr(self.shape, f, self.sort, nan=self.nan)

    def __repr__(self):
        return f"<SArr {self.shape} {self.sort}>"


class SList:
    """Python list/tuple; concrete items or symbolic length with accessor"""

    def __init__(self, items=None, n=None, fn=None, is_tuple=False):
        self.items = items
        self.n = n
        self.efn = fn
        self.is_tuple = is_tuple
        self.uid = next(_ids)

    @property
    def concrete(self):
        return self.items is not None

    def length(self):
        return len(self.items) if self.concrete else self.n

    def get(self, i):
        if self.concrete:
            if isinstance(i, T):
                v = tm.numval(i)
                if v is None:
                    raise Unsupported("symbolic index into concrete list")
                i = int(v)
            return self.items[i]
        return self.efn(const(i) if not isinstance(i, T) else i)

    def append(self, x):
        if not self.concrete:
            n, f = self.n, self.efn
            JOURNAL.record(self, lambda: (setattr(self, "n", n), setattr(self, "efn", f)))
            self.n = n + 1
            self.efn = lambda i, f=f, n=n, x=x: sym_ite(tm.eq(i, n), lambda: x, lambda: f(i))
            return
        old = self.items
        JOURNAL.record(self, lambda: setattr(self, "items", old))
        self.items = old + [x]

    def replace(self, items=None, n=None, fn=None):
        o = (self.items, self.n, self.efn)

        def undo():
            self.items, self.n, self.efn = o

        JOURNAL.record(self, undo)
        self.items, self.n, self.efn = items, n, fn

    def __repr__(self):
        return f"<SList {self.items if self.concrete else self.n}>"


def sym_ite(c, a, b):
    """ite over arbitrary values; a and b are thunks"""
    if c is tm.TRUE:
        return a()
    if c is tm.FALSE:
        return b()
    return merge(c, a(), b())


def merge(c, x, y):
    if x is y:
        return x
    if isinstance(x, (T, int, float, Fraction, bool)) and isinstance(y, (T, int, float, Fraction, bool)) and x is not None:
        tx, ty = const(x), const(y)
        if (tx.sort == "B") == (ty.sort == "B"):
            return tm.ite(c, tx, ty)
    if isinstance(x, SArr) and isinstance(y, SArr) and len(x.shape) == len(y.shape):
        shp = tuple(
            a if dim_eq(a, b) else tm.ite(c, const(a), const(b)) for a, b in zip(x.shape, y.shape)
        )
        fx, fy = x.frozen(), y.frozen()
        return SArr(shp, lambda *i: tm.ite(c, fx.get(*i), fy.get(*i)), x.sort if x.sort == y.sort else "R")
    if isinstance(x, SList) and isinstance(y, SList) and x.concrete and y.concrete and len(x.items) == len(y.items):
        return SList([merge(c, a, b) for a, b in zip(x.items, y.items)], is_tuple=x.is_tuple)
    if type(x) is type(y) and not isinstance(x, (SArr, SList, SObj, SDict, SSet)):
        try:
            if x == y:
                return x
        except Exception:
            pass
    raise Unsupported(f"cannot merge {x!r} and {y!r}")


class SObj:
    """instance of a class whose source is interpreted (or an opaque object)"""

    def __init__(self, cls, attrs=None, label=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.label = label
        self.uid = next(_ids)

    def setattr(self, k, v):
        has = k in self.attrs
        old = self.attrs.get(k)

        def undo():
            if has:
                self.attrs[k] = old
            else:
                self.attrs.pop(k, None)

        JOURNAL.record(self, undo)
        self.attrs[k] = v

    def delattr(self, k):
        old = self.attrs[k]

        def undo():
            self.attrs[k] = old

        JOURNAL.record(self, undo)
        self.attrs.pop(k)

    def __repr__(self):
        return f"<SObj {getattr(self.cls, '__name__', self.cls)} {self.label or ''}>"


class SDict:
    """dict with concrete keys"""

    def __init__(self, d=None):
        self.d = dict(d or {})
        self.uid = next(_ids)

    def set(self, k, v):
        has = k in self.d
        old = self.d.get(k)

        def undo():
            if has:
                self.d[k] = old
            else:
                self.d.pop(k, None)

        JOURNAL.record(self, undo)
        self.d[k] = v

    def pop(self, k):
        snap = dict(self.d)
        JOURNAL.record(self, lambda: setattr(self, "d", snap))
        self.d = dict(self.d)
        return self.d.pop(k)

    def __repr__(self):
        return f"<SDict {self.d}>"


class SSet:
    """set given by a membership predicate over terms (universe [0, n) ints) or
    concrete items"""

    def __init__(self, items=None, pred=None):
        self.items = items  # python list of concrete values
        self.pred = pred
        self.source = None  # (length, sequence, predicate) it was built from
        self.uid = next(_ids)

    def contains(self, x):
        if self.items is not None:
            return tm.or_(*[tm.eq(const(x), const(i)) for i in self.items])
        return tm.FALSE if x is None else self.pred(const(x))

    def add(self, x):
        o = (self.items, self.pred)

        def undo():
            self.items, self.pred = o

        JOURNAL.record(self, undo)
        if self.items is not None and not isinstance(x, T):
            if x not in self.items:
                self.items = self.items + [x]
            return
        p = self.contains_fn()
        self.items = None
        self.pred = lambda y, p=p, x=x: tm.or_(p(y), tm.eq(y, x))

    def contains_fn(self):
        if self.items is not None:
            its = list(self.items)
            return lambda y: tm.or_(*[tm.eq(y, const(i)) for i in its])
        return self.pred

    def set_pred(self, pred):
        o = (self.items, self.pred)

        def undo():
            self.items, self.pred = o

        JOURNAL.record(self, undo)
        self.items, self.pred = None, pred


class Poison:
    """value that must not be inspected (state left undefined by a summary)"""

    def __init__(self, why):
        self.why = why

    def __bool__(self):
        raise Unsupported(f"use of {self.why}")

    def __eq__(self, o):
        raise Unsupported(f"use of {self.why}")

    __hash__ = object.__hash__


class SFunc:
    """interpreted function / closure"""

    def __init__(self, node, env, globals_, name, defaults=(), kwdefaults=None, owner=None, module=None, pyfunc=None, is_gen=False):
        self.node = node
        self.env = env  # closure environment (Env) or None
        self.globals = globals_
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.owner = owner  # class for super()
        self.pyfunc = pyfunc
        self.is_gen = is_gen

    def __repr__(self):
        return f"<SFunc {self.name}>"


class BoundMethod:
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        a, b, s = const(self.start), const(self.stop), const(self.step)
        sv = tm.numval(s)
        if sv == 1:
            return tm.pos(b - a)
        if sv == -1:
            return tm.pos(a - b)
        if sv is not None and sv < 0:
            return tm.pos(tm.ceil(tm.div(a - b, -s)))
        return tm.pos(tm.ceil(tm.div(b - a, s)))

    def get(self, k):
        return const(self.start) + const(self.step) * const(k)


class Opaque:
    """uninterpreted Python value (string from an f-string, warning text...)"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"


def is_sym(x, depth=0):
    """does the value contain anything symbolic (i.e. not a plain Python object)?"""
    if isinstance(x, T):
        return x.op != "ustr"
    if isinstance(x, (SArr, SObj, SFunc, BoundMethod, SSet, SRange, Opaque, SuperProxy)):
        return True
    if isinstance(x, SList):
        return (not x.concrete) or any(is_sym(y, depth + 1) for y in x.items)
    if isinstance(x, SDict):
        return any(is_sym(v, depth + 1) for v in x.d.values())
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(is_sym(y, depth + 1) for y in x)
    if depth < 4 and isinstance(x, dict):
        return any(is_sym(y, depth + 1) for y in x.values())
    if type(x).__module__.startswith("pyvc"):
        return True
    return False


def concretize(x):
    """plain Python object from a non symbolic interpreter value"""
    if isinstance(x, T) and x.op == "ustr":
        return x.args[0]
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 and False else float(x)
    if isinstance(x, SList):
        its = [concretize(y) for y in x.items]
        return tuple(its) if x.is_tuple else its
    if isinstance(x, SDict):
        return {k: concretize(v) for k, v in x.d.items()}
    if isinstance(x, SSet) and x.items is not None:
        return set(x.items)
    return x


def abstractize(x):
    """interpreter value from a plain Python object"""
    import numpy as np

    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            return f
        return Fraction(repr(f))
    if isinstance(x, list):
        return SList([abstractize(y) for y in x])
    if isinstance(x, tuple) and type(x) is tuple:
        return SList([abstractize(y) for y in x], is_tuple=True)
    if isinstance(x, dict) and type(x) is dict:
        return SDict({k: abstractize(v) for k, v in x.items()})
    if isinstance(x, set):
        return SSet(items=list(x))
    if isinstance(x, np.ndarray):
        return from_numpy(x)
    return x


def from_numpy(a, origin=None):
    import numpy as np

    sort = {"b": "B", "i": "I", "u": "I", "f": "R"}.get(a.dtype.kind)
    if a.dtype.kind in "OU" and a.size and all(isinstance(v, str) for v in a.ravel().tolist()):
        sort = "U"
        a = a.astype(object)
    if sort is None:
        return SList([abstractize(v) for v in a.tolist()]) if a.ndim == 1 else a
    data = a.copy()

    def fn(*idx):
        cs = []
        for i in idx:
            v = tm.numval(i)
            if v is None:
                cs = None
                break
            cs.append(int(v))
        if cs is not None:
            v = data[tuple(cs)]
            return const(v.item() if hasattr(v, "item") else v)
        # symbolic index into a constant array: ite chain over all cells
        r = None
        for ix in np.ndindex(*data.shape):
            v = const(data[ix].item() if hasattr(data[ix], "item") else data[ix])
            if r is None:
                r = v
            else:
                r = tm.ite(tm.and_(*[tm.eq(a_, b_) for a_, b_ in zip(idx, ix)]), v, r)
        return r

    return SArr(a.shape, fn, sort, origin=origin)
