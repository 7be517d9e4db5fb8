"""Models (assumed contracts) of NumPy, built-ins and small parts of the other
dependencies.  Arithmetic is exact (reals/integers)."""

from __future__ import annotations

import builtins
import copy
import enum
import functools
import itertools
import math
import numbers
import operator
import types
import warnings
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import FALSE, TRUE, T, const
from .values import (
    JOURNAL,
    BoundMethod,
    Opaque,
    PyRaise,
    SArr,
    SDict,
    SFunc,
    SList,
    SObj,
    SRange,
    SSet,
    Unsupported,
    abstractize,
    concretize,
    dim_eq,
    from_numpy,
    is_sym,
    merge,
    norm_dim,
    sym_ite,
)

MODELS: dict = {}
NUMERIC = (T, int, Fraction, float)


def model(*fs):
    def deco(f):
        for x in fs:
            MODELS[x] = f
        return f

    return deco


def num_of(t):
    t = const(t)
    return tm.ind(t) if t.sort == "B" else t


def simp(t):
    """python scalar when constant"""
    if isinstance(t, T):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "ustr":
            return t.args[0]
        v = tm.numval(t)
        if v is not None:
            return int(v) if v.denominator == 1 else v
    return t


# ------------------------------------------------------------------ scalars
def scalar_binop(it, op, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        if isinstance(a, float) or isinstance(b, float):  # inf/nan
            return getattr(operator, _OPF[op])(float(a), float(b))
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                raise PyRaise(ZeroDivisionError())
            r = Fraction(a) / Fraction(b)
            return r
        if op == "FloorDiv":
            if b == 0:
                raise PyRaise(ZeroDivisionError())
            return a // b
        if op == "Mod":
            if b == 0:
                raise PyRaise(ZeroDivisionError())
            return a % b
        if op == "Pow":
            if isinstance(b, int):
                return a**b if b >= 0 or isinstance(a, Fraction) else Fraction(a) ** b
            return simp(tm.power(const(a), Fraction(b)))
        return getattr(operator, _OPF[op])(a, b)
    return simp(term_binop(it, op, const(a), const(b)))


_OPF = dict(
    Add="add", Sub="sub", Mult="mul", Div="truediv", FloorDiv="floordiv", Mod="mod", Pow="pow",
    BitAnd="and_", BitOr="or_", BitXor="xor",
)


def term_binop(it, op, a, b):
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.sort == "B" and b.sort == "B":
            if op == "BitAnd":
                return tm.and_(a, b)
            if op == "BitOr":
                return tm.or_(a, b)
            return tm.not_(tm.iff(a, b))
        raise Unsupported("bitwise on numbers")
    a, b = num_of(a), num_of(b)
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op == "Div":
        check_div(it, b)
        return a / b
    if op == "FloorDiv":
        check_div(it, b)
        return a // b
    if op == "Mod":
        check_div(it, b)
        return a % b
    if op == "Pow":
        v = tm.numval(b)
        if v is not None:
            return tm.power(a, v)
        return tm.rpow(a, b)
    raise Unsupported(f"operator {op}")


def check_div(it, b):
    dv = getattr(it.m, "div_checks", None)
    if dv is not None and it is not None:
        dv.append((list(it.m.facts), b))


def scalar_compare(op, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return getattr(operator, dict(Eq="eq", NotEq="ne", Lt="lt", LtE="le", Gt="gt", GtE="ge")[op])(a, b)
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, float):  # inf
            if x != x:
                return op == "NotEq"
            big = x > 0
            o = op
            if not sw:  # x op T
                return {"Lt": not big, "LtE": not big, "Gt": big, "GtE": big, "Eq": False, "NotEq": True}[o]
            return {"Lt": big, "LtE": big, "Gt": not big, "GtE": not big, "Eq": False, "NotEq": True}[o]
    return simp(term_compare(op, const(a), const(b)))


def term_compare(op, a, b):
    if op in ("Eq", "NotEq") and a.sort == "B" and b.sort == "B":
        r = tm.iff(a, b)
        return r if op == "Eq" else tm.not_(r)
    if a.sort not in "IRB" or b.sort not in "IRB":
        r = tm.eq(a, b)
        if op == "Eq":
            return r
        if op == "NotEq":
            return tm.not_(r)
        raise Unsupported("order on uninterpreted sort")
    a, b = num_of(a), num_of(b)
    return {
        "Eq": lambda: tm.eq(a, b),
        "NotEq": lambda: tm.ne(a, b),
        "Lt": lambda: tm.lt(a, b),
        "LtE": lambda: tm.le(a, b),
        "Gt": lambda: tm.lt(b, a),
        "GtE": lambda: tm.le(b, a),
    }[op]()


# ------------------------------------------------------------------- arrays
def to_arr(it, x):
    """array view of a value (scalars become 0-d)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return from_numpy(x)
    if isinstance(x, bool):
        return SArr((), lambda: const(x), "B")
    if isinstance(x, str):
        return SArr((), lambda: const(x), "U")
    if isinstance(x, T):
        return SArr((), lambda: x, x.sort)
    if isinstance(x, (int, Fraction)):
        return SArr((), lambda: const(x), "I" if isinstance(x, int) else "R")
    if isinstance(x, (SList, SRange)):
        return list_to_arr(it, x)
    h = getattr(x, "pyvc_array", None)
    if h is not None:
        return h(it)
    if isinstance(x, (list, tuple)):
        return list_to_arr(it, SList([abstractize(y) for y in x]))
    raise Unsupported(f"array from {x!r}")


def list_to_arr(it, l):
    n = l.length()
    if isinstance(n, int) or (isinstance(n, T) and tm.numval(n) is not None):
        n = n if isinstance(n, int) else int(tm.numval(n))
        items = [to_arr(it, l.get(k)) for k in range(n)]
        if not items:
            return SArr((0,), lambda i: tm.ZERO, "R")
        nd = items[0].ndim
        if any(x.ndim != nd for x in items):
            raise PyRaise(ValueError("inhomogeneous shape"))
        shp = items[0].shape
        for x in items[1:]:
            for a, b in zip(shp, x.shape):
                if not it.same_dim(a, b):
                    raise PyRaise(ValueError("inhomogeneous shape"))
        fz = [x.frozen() for x in items]
        sort = join_sorts([x.sort for x in items])

        def fn(i, *rest):
            v = tm.numval(i)
            if v is not None:
                return coerce(fz[int(v)].get(*rest), sort)
            r = coerce(fz[-1].get(*rest), sort)
            for k in range(len(fz) - 2, -1, -1):
                r = tm.ite(tm.eq(i, k), coerce(fz[k].get(*rest), sort), r)
            return r

        return SArr((n, *shp), fn, sort)
    k = tm.fresh("k", "I")
    sample = to_arr(it, l.get(k))
    for d in sample.shape:
        if isinstance(d, T) and k.args[0] in d.fv:
            raise Unsupported("ragged symbolic list")

    def fn2(i, *rest):
        return to_arr(it, l.get(i)).get(*rest)

    return SArr((n, *sample.shape), fn2, sample.sort)


def join_sorts(ss):
    if "U" in ss:
        return "U"
    if "R" in ss:
        return "R"
    if "I" in ss:
        return "I"
    return "B" if ss else "R"


def coerce(t, sort):
    if sort in ("I", "R") and t.sort == "B":
        return tm.ind(t)
    return t


def broadcast_shapes(it, *shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif not it.same_dim(cur, d):
                # a symbolic dimension might equal 1
                raise PyRaise(ValueError("operands could not be broadcast together"))
        out.append(cur)
    return tuple(out)


def bget(a, nd, idx):
    """element of a at broadcast index idx (len nd)"""
    off = nd - a.ndim
    ii = []
    for k in range(a.ndim):
        d = a.shape[k]
        if isinstance(d, int) and d == 1:
            ii.append(tm.ZERO)
        else:
            ii.append(idx[off + k])
    return a.get(*ii)


def elementwise(it, f, *arrs, sort=None, sortf=None):
    arrs = [to_arr(it, a).frozen() for a in arrs]
    shp = broadcast_shapes(it, *[a.shape for a in arrs])
    nd = len(shp)
    if sort is None:
        sort = sortf(*[a.sort for a in arrs]) if sortf else join_sorts([a.sort for a in arrs])
    nan = None
    nans = [a for a in arrs if a.nan is not None]
    if nans:
        def nan(*idx):
            out = []
            for a in nans:
                off = nd - a.ndim
                ii = [tm.ZERO if (isinstance(a.shape[k], int) and a.shape[k] == 1) else idx[off + k] for k in range(a.ndim)]
                out.append(a.nan(*ii))
            return tm.or_(*out)
    r = SArr(shp, lambda *i: f(*[bget(a, nd, i) for a in arrs]), sort, nan=nan)
    if nd == 0:
        return simp(r.get())
    return r


def array_binop(it, op, a, b):
    if op == "MatMult":
        return matmul(it, a, b)
    if a is None or b is None:
        raise PyRaise(TypeError(f"unsupported operand {op}"))
    a, b = to_arr(it, a), to_arr(it, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        return elementwise(it, lambda x, y: term_binop(None, op, x, y), a, b, sort="B")

    def sf(s1, s2):
        if op == "Div":
            return "R"
        s = join_sorts([s1, s2])
        return "I" if s == "B" else s

    if op in ("Div", "FloorDiv", "Mod"):
        bz = b.frozen()
        if getattr(it.m, "div_checks", None) is not None:
            idx = [tm.fresh("i", "I") for _ in b.shape]
            rng = []
            for v, n in zip(idx, b.shape):
                rng += [tm.le(0, v), tm.lt(v, n)]
            it.m.div_checks.append((list(it.m.facts) + rng, num_of(bz.get(*idx))))

    class _N:
        m = None

    return elementwise(it, lambda x, y: _tb(op, x, y), a, b, sortf=sf)


def _tb(op, a, b):
    a, b = num_of(a), num_of(b)
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op == "Div":
        return a / b
    if op == "FloorDiv":
        return a // b
    if op == "Mod":
        return a % b
    if op == "Pow":
        v = tm.numval(b)
        return tm.power(a, v) if v is not None else tm.rpow(a, b)
    raise Unsupported(op)


def array_compare(it, op, a, b):
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        arr = to_arr(it, b if isinstance(a, (str, type(None))) else a)
        if op in ("Eq", "NotEq") and (arr.sort != "U" or a is None or b is None):
            return SArr(arr.shape, lambda *i: const(op == "NotEq"), "B")
    if isinstance(b, float) or isinstance(a, float):
        arr, f, sw = (a, b, True) if isinstance(b, float) else (b, a, False)
        r = scalar_compare(op, tm.fresh("x", "R"), f) if sw else scalar_compare(op, f, tm.fresh("x", "R"))
        arr = to_arr(it, arr)
        return SArr(arr.shape, lambda *i: const(r), "B")
    return elementwise(it, lambda x, y: term_compare(op, x, y), a, b, sort="B")


def matmul(it, a, b):
    a, b = to_arr(it, a).frozen(), to_arr(it, b).frozen()
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise(ValueError("matmul: scalar operand"))
    ka = a.shape[-1]
    kb = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not it.same_dim(ka, kb):
        raise PyRaise(ValueError("matmul: dimension mismatch"))
    n = ka
    if a.ndim == 1 and b.ndim == 1:
        return simp(tm.bigsum(n, lambda k: num_of(a.get(k)) * num_of(b.get(k))))
    if a.ndim == 1 and b.ndim == 2:
        return SArr((b.shape[1],), lambda j: tm.bigsum(n, lambda k: num_of(a.get(k)) * num_of(b.get(k, j))))
    if a.ndim == 2 and b.ndim == 1:
        return SArr((a.shape[0],), lambda i: tm.bigsum(n, lambda k: num_of(a.get(i, k)) * num_of(b.get(k))))
    if a.ndim == 2 and b.ndim == 2:
        return SArr(
            (a.shape[0], b.shape[1]),
            lambda i, j: tm.bigsum(n, lambda k: num_of(a.get(i, k)) * num_of(b.get(k, j))),
        )
    raise Unsupported("matmul nd")


@model(np.dot)
def m_dot(it, a, b):
    A, B = to_arr(it, a), to_arr(it, b)
    if A.ndim == 0 or B.ndim == 0:
        return array_binop(it, "Mult", a, b)
    return matmul(it, A, B)


MODELS[np.matmul] = lambda it, a, b: matmul(it, a, b)


# ------------------------------------------------------------------ indexing
def norm_slice(it, s, n):
    """(start, length, step) of a Python slice on a dimension of size n"""
    nt = const(n)
    step = 1 if s.step is None else s.step
    if isinstance(step, T):
        raise Unsupported("symbolic slice step")
    step = int(step)
    if step == 1:
        lo = _clamp(it, s.start, nt, tm.ZERO)
        hi = _clamp(it, s.stop, nt, nt)
        d = hi - lo
        if tm.numval(d) is not None:
            ln = tm.pos(d)
        else:
            k = it.m.known(tm.le(0, d))
            ln = d if k else tm.pos(d)
        return lo, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return nt - 1, nt, -1
    if step == -1:
        if s.stop is None:
            st = const(s.start)
            if it.m.known(tm.and_(tm.le(0, st), tm.lt(st, nt))):
                return st, st + 1, -1
    if step > 1 and s.stop is None:
        lo = _clamp(it, s.start, nt, tm.ZERO)
        return lo, tm.pos(tm.ceil(tm.div(nt - lo, step))), step
    raise Unsupported(f"slice step {step}")


def _clamp(it, x, n, default):
    if x is None:
        return default
    x = const(x)
    if x.sort == "R":
        raise PyRaise(TypeError("slice indices must be integers"))
    v, nv = tm.numval(x), tm.numval(n)
    if v is not None and nv is not None:
        v = v + nv if v < 0 else v
        return const(max(0, min(int(v), int(nv))))
    if v is not None:
        if v == 0:
            return tm.ZERO
        if v > 0:
            return x if it.m.known(tm.le(x, n)) else tm.minimum(x, n)
        return (n + x) if it.m.known(tm.le(0, n + x)) else tm.pos(n + x)
    k = it.m.known(tm.le(0, x))
    if k:
        return x if it.m.known(tm.le(x, n)) else tm.minimum(x, n)
    k2 = it.m.known(tm.lt(x, 0))
    if k2:
        return (n + x) if it.m.known(tm.le(0, n + x)) else tm.pos(n + x)
    if it.m.branch(tm.le(0, x)):
        return x if it.m.known(tm.le(x, n)) else tm.minimum(x, n)
    return (n + x) if it.m.known(tm.le(0, n + x)) else tm.pos(n + x)


def norm_int(it, i, n, nocheck=False):
    if isinstance(i, bool):
        raise Unsupported("bool index")
    if isinstance(i, Fraction):
        if i.denominator != 1:
            raise PyRaise(IndexError("float index"))
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise PyRaise(IndexError(f"index {i} out of bounds for size {n}"))
        return const(i + n if i < 0 else i)
    t, nt = const(i), const(n)
    if t.sort == "R":
        raise PyRaise(IndexError("only integers are valid indices"))
    if nocheck:
        return t
    v = tm.numval(t)
    if v is not None:
        if v < 0:
            if not it.m.branch(tm.le(0, nt + t)):
                raise PyRaise(IndexError("out of bounds"))
            return nt + t
        if not it.m.branch(tm.lt(t, nt)):
            raise PyRaise(IndexError("out of bounds"))
        return t
    if it.m.known(tm.and_(tm.le(0, t), tm.lt(t, nt))):
        return t
    if it.m.branch(tm.lt(t, 0)):
        if not it.m.branch(tm.le(0, nt + t)):
            raise PyRaise(IndexError("out of bounds"))
        return nt + t
    if not it.m.branch(tm.lt(t, nt)):
        raise PyRaise(IndexError("out of bounds"))
    return t


def is_bool_arr(x):
    return isinstance(x, SArr) and x.sort == "B"


def parse_index(it, a, ix):
    """list of per-dimension specs covering a.ndim dims"""
    if isinstance(ix, SList) and ix.is_tuple:
        comps = list(ix.items)
    else:
        comps = [ix]
    nreal = 0
    for c in comps:
        if c is None or c is Ellipsis:
            continue
        nreal += c.ndim if is_bool_arr(c) else 1
    out = []
    for c in comps:
        if c is Ellipsis:
            out += [slice(None)] * (a.ndim - nreal)
        else:
            out.append(c)
    if Ellipsis not in [c for c in comps if not isinstance(c, (SArr, SList, T))]:
        out += [slice(None)] * (a.ndim - nreal)
    if nreal > a.ndim:
        raise PyRaise(IndexError("too many indices for array"))
    return out


def array_getitem(it, a, ix, nocheck=False):
    comps = parse_index(it, a, ix)
    # whole-array boolean mask
    if any(is_bool_arr(c) or (isinstance(c, SList) and c.concrete and c.items and all(isinstance(x, bool) for x in c.items)) for c in comps):
        return mask_getitem(it, a, comps)
    fancy = [k for k, c in enumerate(comps) if isinstance(c, (SArr, SList, np.ndarray)) and not (isinstance(c, SArr) and c.ndim == 0)]
    shape = []
    maps = []  # per source dim: function(out idx list) -> term
    invs = []  # per source dim
    d = 0
    if len(fancy) == 0:
        o = 0
        for c in comps:
            if c is None:
                shape.append(1)
                invs.append(("new", o))
                o += 1
                continue
            n = a.shape[d]
            if isinstance(c, slice):
                if c == slice(None):
                    lo, ln, st = tm.ZERO, const(n), 1
                else:
                    lo, ln, st = norm_slice(it, c, n)
                shape.append(ln)
                maps.append(lambda idx, o=o, lo=lo, st=st: lo + idx[o] * st)
                invs.append(("slice", o, lo, ln, st))
                o += 1
            else:
                if isinstance(c, SArr):
                    c = c.get()
                t = norm_int(it, c, n, nocheck)
                maps.append(lambda idx, t=t: t)
                invs.append(("int", t))
            d += 1
        if not shape:
            r = a.get(*[m(()) for m in maps])
            return simp(r) if a.sort in ("I", "R", "B") else r
        mp = lambda *idx: tuple(m(idx) for m in maps)
        nan = (lambda *idx: a.nan(*mp(*idx))) if a.nan is not None else None
        r = SArr(shape, lambda *idx: a.get(*mp(*idx)), a.sort, nan=nan, view=(a, mp))
        nout = len(shape)

        def inv(*src):
            cond, out = [], [tm.ZERO] * nout
            k = 0
            for s in invs:
                if s[0] == "new":
                    continue
                if s[0] == "int":
                    cond.append(tm.eq(src[k], s[1]))
                else:
                    _, o_, lo, ln, st = s
                    if st == 1:
                        e = src[k] - lo
                    elif st == -1:
                        e = lo - src[k]
                    else:
                        raise Unsupported("write through strided view")
                    if not (lo is tm.ZERO and dim_eq(ln, a.shape[k]) and st == 1):
                        cond.append(tm.and_(tm.le(0, e), tm.lt(e, ln)))
                    out[o_] = e
                k += 1
            return tm.and_(*cond), tuple(out)

        r.view_inv = inv
        if getattr(a, "nonneg", False):
            r.nonneg = True
        return r
    # fancy indexing (integer arrays), broadcast together
    idxarrs = {}
    for k in fancy:
        c = comps[k]
        idxarrs[k] = to_arr(it, c).frozen()
    fshape = broadcast_shapes(it, *[x.shape for x in idxarrs.values()])
    # scalars alongside fancy indices participate in the broadcast
    if any(c is None for c in comps):
        raise Unsupported("newaxis with fancy index")
    scal = [k for k, c in enumerate(comps) if not isinstance(c, slice) and k not in idxarrs]
    adv = sorted(list(idxarrs) + scal)
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    pos0 = adv[0] if contiguous else 0
    shape = []
    srcmap = [None] * a.ndim
    o = 0
    nf = len(fshape)
    order = []
    if not contiguous:
        shape += list(fshape)
        fo = 0
        o = nf
    else:
        fo = None
    for k, c in enumerate(comps):
        if k in idxarrs or k in scal:
            if contiguous and fo is None:
                fo = o
                shape += list(fshape)
                o += nf
            n = a.shape[k]
            if k in idxarrs:
                ia = idxarrs[k]

                def mk(idx, ia=ia, n=n):
                    sub = idx[fo : fo + nf]
                    e = bget(ia, nf, sub)
                    return wrap_neg(it, ia, e, n)

                srcmap[k] = mk
            else:
                t = norm_int(it, c, n, nocheck)
                srcmap[k] = lambda idx, t=t: t
        else:
            lo, ln, st = norm_slice(it, c, a.shape[k])
            shape.append(ln)
            srcmap[k] = lambda idx, o=o, lo=lo, st=st: lo + idx[o] * st
            o += 1
    fz = a.frozen()
    nan = (lambda *idx: fz.nan(*[m(idx) for m in srcmap])) if fz.nan is not None else None
    r = SArr(shape, lambda *idx: fz.get(*[m(idx) for m in srcmap]), a.sort, nan=nan)
    if getattr(a, "nonneg", False):
        r.nonneg = True
    return r


def wrap_neg(it, ia, e, n):
    """negative integer indices wrap"""
    v = tm.numval(e)
    if v is not None:
        return e if v >= 0 else const(n) + e
    if getattr(ia, "nonneg", False) or tm.known_nonneg(e):
        return e
    return tm.ite(tm.lt(e, 0), e + const(n), e)


def ghost(prefix, key):
    """(name, parameters) of a ghost function attached to a closed-up key: the
    free variables of the key become parameters"""
    fv = sorted(key.fv)
    sorts = {}

    def visit(t):
        if t.op == "var":
            sorts[t.args[0]] = t
        return False

    tm.atoms_of(key, visit)
    k = tm.abstract(key, fv) if fv else key
    return f"{prefix}{k.id}", [sorts[n] for n in fv]


# masks ----------------------------------------------------------------------
_sel_cache: dict = {}


class Selection:
    """ghost enumeration of {i < n : mask(i)} in increasing order"""

    def __init__(self, it, n, mask):
        self.n = const(n)
        v = tm.fresh("m", "I")
        self.mask = mask
        self.name, self.deps = ghost("sel", tm.mkbind("lam", (self.n,), tm.abstract(mask(v), [v.args[0]]), (), "B"))
        self.count = tm.bigsum(self.n, lambda i: tm.ind(mask(i)))

    def sel(self, j):
        return tm.app(self.name, [*self.deps, j], "I")

    def rank(self, i):
        return tm.app(self.name + "r", [*self.deps, i], "I")

    def facts(self):
        c = self.count
        return [
            tm.le(0, c),
            tm.le(c, self.n),
            tm.forall(c, lambda j: tm.and_(tm.le(0, self.sel(j)), tm.lt(self.sel(j), self.n), self.mask(self.sel(j)), tm.eq(self.rank(self.sel(j)), j))),
            tm.forall(self.n, lambda i: tm.or_(tm.not_(self.mask(i)), tm.and_(tm.le(0, self.rank(i)), tm.lt(self.rank(i), c), tm.eq(self.sel(self.rank(i)), i)))),
            tm.forall(c, lambda j: tm.forall(j, lambda i: tm.lt(self.sel(i), self.sel(j)))),
        ]


def selection(it, n, mask):
    s = Selection(it, n, mask)
    facts = s.facts()
    if not tm.is_num(s.count):
        tm.ENUMS[s.count] = ([s.sel], [s.n], s.mask)
    for f in facts:
        if f is not TRUE and f not in it.m.facts:
            it.m.facts.append(f)
    return s


def _sum_over_selection(ranges, atoms):
    """sum_{j<count} f(sel(j)) = sum_{i<n} [mask(i)] f(i)"""
    return None


def mask_getitem(it, a, comps):
    comps = [to_arr(it, c) if isinstance(c, SList) else c for c in comps]
    if a.ndim == 1 and len(comps) == 1:
        mask = comps[0].frozen()
        n = a.shape[0]
        if not it.same_dim(mask.shape[0], n):
            raise PyRaise(IndexError("boolean index did not match"))
        return compress(it, a, 0, mask)
    if all(isinstance(c, slice) and c == slice(None) or is_bool_arr(c) for c in comps):
        ks = [k for k, c in enumerate(comps) if is_bool_arr(c)]
        if len(ks) == 1 and comps[ks[0]].ndim == 1:
            return compress(it, a, ks[0], comps[ks[0]].frozen())
    raise Unsupported("mask indexing")


def compress(it, a, axis, mask):
    n = a.shape[axis]
    fz = a.frozen()
    if isinstance(n, int):
        # concrete length: decide each entry when constant
        vals = [mask.get(k) for k in range(n)]
        if getattr(it, "unroll_while", False):  # bounded mode: case split
            vals = [TRUE if it.m.branch(v) else FALSE for v in vals]
        if all(v in (TRUE, FALSE) for v in vals):
            keep = [k for k, v in enumerate(vals) if v is TRUE]
            shp = list(a.shape)
            shp[axis] = len(keep)

            def fn(*idx):
                idx = list(idx)
                j = idx[axis]
                v = tm.numval(j)
                if v is not None:
                    idx[axis] = const(keep[int(v)])
                    return fz.get(*idx)
                idx[axis] = const(keep[-1])
                r = fz.get(*idx)
                for q in range(len(keep) - 2, -1, -1):
                    idx[axis] = const(keep[q])
                    r = tm.ite(tm.eq(j, q), fz.get(*idx), r)
                return r

            return SArr(shp, fn, a.sort)
        keep = [k for k in range(n) if it.m.branch(vals[k])]
        sub = SArr((n,), lambda i: const(tm.numval(i) in keep), "B")
        return compress(it, a, axis, sub)
    s = selection(it, n, lambda i: mask.get(i))
    shp = list(a.shape)
    shp[axis] = s.count
    nan = None
    if fz.nan is not None:
        nan = lambda *idx: fz.nan(*[s.sel(x) if k == axis else x for k, x in enumerate(idx)])
    r = SArr(shp, lambda *idx: fz.get(*[s.sel(x) if k == axis else x for k, x in enumerate(idx)]), a.sort, nan=nan)
    r.selection = (s, axis, fz)
    return r


def array_setitem(it, a, ix, v):
    it.note_write(a.root())
    comps = parse_index(it, a, ix)
    old = a.frozen()
    if len(comps) == 1 and is_bool_arr(comps[0]) and comps[0].ndim == a.ndim:
        mask = comps[0].frozen()
        val = to_arr(it, v).frozen()
        if val.ndim == 0:
            _store(it, a, lambda *i: tm.ite(mask.get(*i), coerce(val.get(), a.sort), old.get(*i)), val.sort)
            return
        sel_v = getattr(v, "selection", None)
        if sel_v is not None and sel_v[0].mask is not None:
            # a[m] = b[m]
            s, axis, src = sel_v
            t = tm.fresh("m", "I")
            if s.mask(t) is mask.get(t):
                _store(it, a, lambda *i: tm.ite(mask.get(*i), src.get(*i), old.get(*i)), val.sort)
                return
        if a.ndim == 1 and val.ndim == 1:
            s = selection(it, a.shape[0], lambda i: mask.get(i))
            if not it.same_dim(s.count, val.shape[0]):
                raise PyRaise(ValueError("NumPy boolean array indexing assignment"))
            _store(it, a, lambda i: tm.ite(mask.get(i), val.get(s.rank(i)), old.get(i)), val.sort)
            return
        raise Unsupported("mask assignment")
    if any(is_bool_arr(c) for c in comps):
        ks = [k for k, c in enumerate(comps) if is_bool_arr(c)]
        if len(ks) == 1 and all(isinstance(c, slice) and c == slice(None) for k, c in enumerate(comps) if k != ks[0]):
            mask = comps[ks[0]].frozen()
            val = to_arr(it, v).frozen()
            if val.ndim == 0:
                _store(it, a, lambda *i: tm.ite(mask.get(i[ks[0]]), val.get(), old.get(*i)), val.sort)
                return
            s = selection(it, a.shape[ks[0]], lambda i: mask.get(i))
            if val.ndim == a.ndim:
                _store(
                    it,
                    a,
                    lambda *i: tm.ite(
                        mask.get(i[ks[0]]),
                        val.get(*[s.rank(x) if k == ks[0] else x for k, x in enumerate(i)]),
                        old.get(*i),
                    ),
                    val.sort,
                )
                return
        raise Unsupported("mask assignment")
    fancy = [k for k, c in enumerate(comps) if isinstance(c, (SArr, SList, np.ndarray))]
    if not fancy:
        sub = array_getitem(it, a, ix if isinstance(ix, SList) else SList([ix], is_tuple=True))
        val = to_arr(it, v).frozen()
        if not isinstance(sub, SArr):
            # scalar cell
            t = [norm_int(it, c, n) for c, n in zip(comps, a.shape)]
            if val.ndim and not all(d == 1 for d in val.shape):
                raise PyRaise(ValueError("setting an array element with a sequence"))
            x = coerce(val.get(*[0] * val.ndim), a.sort)
            _store(it, a, lambda *i: tm.ite(tm.and_(*[tm.eq(p, q) for p, q in zip(i, t)]), x, old.get(*i)), x.sort)
            return
        inv = sub.view_inv
        broadcast_shapes(it, sub.shape, val.shape)
        nd = sub.ndim

        def fn(*i):
            c, j = inv(*i)
            return tm.ite(c, coerce(bget(val, nd, j), a.sort), old.get(*i))

        _store(it, a, fn, val.sort)
        return
    # scatter
    idxarrs = {k: to_arr(it, comps[k]).frozen() for k in fancy}
    fshape = broadcast_shapes(it, *[x.shape for x in idxarrs.values()])
    nf = len(fshape)
    val = to_arr(it, v).frozen()
    # positions of the result of indexing: slices keep their place
    first = fancy[0]
    contiguous = fancy == list(range(first, first + len(fancy)))

    def hit(i, js):
        cs = []
        for k, c in enumerate(comps):
            if k in idxarrs:
                cs.append(tm.eq(i[k], wrap_neg(it, idxarrs[k], bget(idxarrs[k], nf, js), a.shape[k])))
            elif isinstance(c, slice):
                if c != slice(None):
                    lo, ln, st = norm_slice(it, c, a.shape[k])
                    cs.append(tm.and_(tm.le(lo, i[k]), tm.lt(i[k], lo + ln)))
            else:
                cs.append(tm.eq(i[k], norm_int(it, c, a.shape[k])))
        return tm.and_(*cs)

    def some(i, js=(), d=0):
        if d == nf:
            return hit(i, js)
        return tm.exists(fshape[d], lambda j: some(i, (*js, j), d + 1))

    if val.ndim == 0:
        x = coerce(val.get(), a.sort)
        _store(it, a, lambda *i: tm.ite(some(i), x, old.get(*i)), x.sort)
        return
    if all(isinstance(d, int) for d in fshape):
        if not contiguous or any(not (k in idxarrs or isinstance(c, slice) and c == slice(None)) for k, c in enumerate(comps)):
            raise Unsupported("scatter nd values")
        pre, post = first, a.ndim - fancy[-1] - 1

        def fnc(*i):
            r = old.get(*i)
            for js in np.ndindex(*fshape):
                js = tuple(const(j) for j in js)
                x = bget(val, pre + nf + post, (*i[:pre], *js, *i[a.ndim - post :]))
                r = tm.ite(hit(i, js), coerce(x, a.sort), r)
            return r

        _store(it, a, fnc, val.sort)
        return
    if nf != 1:
        raise Unsupported("nd scatter")
    m = fshape[0]
    if a.ndim == 1 and val.ndim == 1 and len(idxarrs) == 1:
        ia = idxarrs[0]
        nm, deps = ghost("inv", _arr_key(ia))

        def rank(i):
            return tm.app(nm, [*deps, i], "I")

        ex = lambda i: tm.exists(m, lambda j: hit((i,), (j,)))
        it.m.facts.append(
            tm.forall(
                a.shape[0],
                lambda i: tm.or_(
                    tm.not_(ex(i)),
                    tm.and_(tm.le(0, rank(i)), tm.lt(rank(i), m), hit((i,), (rank(i),))),
                ),
            )
        )
        _store(it, a, lambda i: tm.ite(ex(i), bget(val, 1, (rank(i),)), old.get(i)), val.sort)
        return
    raise Unsupported("scatter assignment")


def _arr_key(a):
    vs = [tm.fresh("k", "I") for _ in a.shape]
    b = a.get(*vs)
    return tm.mkbind("lam", tuple(const(d) for d in a.shape), tm.abstract(b, [v.args[0] for v in vs]), (), b.sort)


def _store(it, a, fn, vsort):
    if a.view is not None:
        it.write_array(a, fn)
        return
    ns = a.sort
    if vsort == "R" and a.sort == "I":
        # assigning a real to an integer array truncates
        raise Unsupported("real stored into integer array")
    a.set_fn(fn)


# ------------------------------------------------------------- list indexing
def list_getitem(it, l, ix):
    if isinstance(ix, slice):
        if l.concrete and not any(isinstance(x, T) for x in (ix.start, ix.stop, ix.step)):
            return SList(l.items[ix], is_tuple=l.is_tuple)
        n = l.length()
        lo, ln, st = norm_slice(it, ix, n)
        from .interp import _getter

        g = _getter(l)
        return SList(n=ln, fn=lambda i: g(lo + i * st))
    if isinstance(ix, SArr) and ix.ndim == 0:
        ix = simp(ix.get())
    if l.concrete:
        if isinstance(ix, T):
            from .interp import _getter

            t = norm_int(it, ix, len(l.items))
            return _getter(l)(t)
        if isinstance(ix, Fraction):
            ix = int(ix)
        if not isinstance(ix, int):
            raise PyRaise(TypeError("list indices must be integers"))
        try:
            return l.items[ix]
        except IndexError as e:
            raise PyRaise(e) from None
    t = norm_int(it, ix, l.n)
    return l.get(t)


def list_setitem(it, l, ix, v):
    if l.is_tuple:
        raise PyRaise(TypeError("tuple assignment"))
    if l.concrete and isinstance(ix, int):
        items = list(l.items)
        try:
            items[ix] = v
        except IndexError as e:
            raise PyRaise(e) from None
        l.replace(items=items)
        return
    n = l.length()
    t = norm_int(it, ix, n)
    from .interp import _getter

    g = _getter(l)
    l.replace(n=const(n), fn=lambda i: sym_ite(tm.eq(i, t), lambda: v, lambda: g(i)))


# ----------------------------------------------------------------- attributes
def array_attr(it, a, name):
    if name == "__getitem__":

        def getitem(it, i):
            return array_getitem(it, a, i)

        getitem._pyvc_model = True
        return getitem
    if name == "shape":
        return SList(list(a.shape), is_tuple=True)
    if name == "ndim":
        return a.ndim
    if name == "size":
        r = 1
        for d in a.shape:
            r = scalar_binop(it, "Mult", r, d)
        return r
    if name == "T":
        if a.ndim < 2:
            return a
        if a.ndim == 2:
            mp = lambda i, j: (j, i)
            r = SArr((a.shape[1], a.shape[0]), lambda i, j: a.get(j, i), a.sort, view=(a, mp))
            r.view_inv = lambda i, j: (TRUE, (j, i))
            return r
        raise Unsupported("T on nd")
    if name == "dtype":
        return np.dtype({"R": float, "I": int, "B": bool}.get(a.sort, object))
    if name == "values":
        raise PyRaise(AttributeError(name))
    if name in ("index", "columns", "iloc", "loc", "name", "to_numpy"):
        raise PyRaise(AttributeError(name))
    f = ARR_METHODS.get(name)
    if f is not None:
        return _Meth(lambda it_, *args, **kw: f(it_, a, *args, **kw))
    if hasattr(np.ndarray, name):
        raise Unsupported(f"ndarray.{name}")
    raise PyRaise(AttributeError(f"'numpy.ndarray' object has no attribute '{name}'"))


class _Meth:
    _pyvc_model = True

    def __init__(self, f):
        self.f = f

    def __call__(self, it, *a, **k):
        return self.f(it, *a, **k)


def scalar_attr(it, o, name):
    if name == "shape":
        return SList([], is_tuple=True)
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name in ("item",):
        return _Meth(lambda it_: o)
    if name in ("astype",):
        return _Meth(lambda it_, t: MODELS.get(t, lambda i, x: x)(it_, o))
    if name in ("sum", "mean", "max", "min", "squeeze", "copy"):
        return _Meth(lambda it_, *a, **k: o)
    if isinstance(o, (int, Fraction)) and hasattr(o, name):
        return getattr(o, name)
    raise PyRaise(AttributeError(name))


def container_attr(it, o, name):
    if isinstance(o, SList):
        f = LIST_METHODS.get(name)
        if f is not None:
            return _Meth(lambda it_, *a, **k: f(it_, o, *a, **k))
        raise PyRaise(AttributeError(f"list has no attribute {name}"))
    if isinstance(o, SDict):
        f = DICT_METHODS.get(name)
        if f is not None:
            return _Meth(lambda it_, *a, **k: f(it_, o, *a, **k))
        raise PyRaise(AttributeError(name))
    if isinstance(o, SSet):
        f = SET_METHODS.get(name)
        if f is not None:
            return _Meth(lambda it_, *a, **k: f(it_, o, *a, **k))
        raise PyRaise(AttributeError(name))
    if isinstance(o, Opaque):
        return _Meth(lambda it_, *a, **k: Opaque(f"{o.what}.{name}"))
    if isinstance(o, str):
        m = getattr(o, name)

        def call(it_, *a, **k):
            if is_sym(a) or is_sym(k):
                return Opaque("str")
            return abstractize(m(*[concretize(x) for x in a], **{q: concretize(v) for q, v in k.items()}))

        return _Meth(call)
    raise Unsupported(f"attribute {name} of {o!r}")


def l_append(it, l, x):
    l.append(x)


def l_extend(it, l, xs):
    s = it.sequence(xs)
    if l.concrete and isinstance(s.length(), int):
        l.replace(items=l.items + [s.get(k) for k in range(s.length())])
    else:
        r = it.binop("Add", l, s if isinstance(s, SList) else SList(n=s.length(), fn=s.get))
        l.replace(items=r.items, n=r.n, fn=r.efn)


def l_copy(it, l):
    return SList(list(l.items) if l.concrete else None, l.n, l.efn)


def l_index(it, l, x):
    if l.concrete:
        for k, y in enumerate(l.items):
            if it.truth(it.compare("Eq", x, y)):
                return k
        raise PyRaise(ValueError("not in list"))
    raise Unsupported("list.index symbolic")


def l_pop(it, l, i=-1):
    if l.concrete and isinstance(i, int):
        items = list(l.items)
        try:
            v = items.pop(i)
        except IndexError as e:
            raise PyRaise(e) from None
        l.replace(items=items)
        return v
    raise Unsupported("pop")


def l_insert(it, l, i, x):
    if l.concrete and isinstance(i, int):
        items = list(l.items)
        items.insert(i, x)
        l.replace(items=items)
        return
    raise Unsupported("insert")


def l_remove(it, l, x):
    k = l_index(it, l, x)
    l_pop(it, l, k)


LIST_METHODS = dict(append=l_append, extend=l_extend, copy=l_copy, index=l_index, pop=l_pop, insert=l_insert, remove=l_remove)
DICT_METHODS = dict(
    items=lambda it, d: SList([SList([k, v], is_tuple=True) for k, v in d.d.items()]),
    keys=lambda it, d: SList(list(d.d)),
    values=lambda it, d: SList(list(d.d.values())),
    get=lambda it, d, k, default=None: d.d.get(it.hashable(k), default),
    copy=lambda it, d: SDict(d.d),
    update=lambda it, d, o=None, **kw: [d.set(k, v) for k, v in {**(o.d if o else {}), **kw}.items()] and None,
    pop=lambda it, d, k, *de: d.pop(k) if k in d.d else (de[0] if de else (_ for _ in ()).throw(PyRaise(KeyError(k)))),
    setdefault=lambda it, d, k, v=None: (d.d[k] if k in d.d else (d.set(k, v), v)[1]),
)


def set_union(it, s, *os):
    p = [s.contains_fn()] + [set_of(it, o).contains_fn() for o in os]
    return SSet(pred=lambda y: tm.or_(*[q(y) for q in p]))


def set_diff(it, s, *os):
    if s.items is not None and all(isinstance(set_of(it, o), SSet) and set_of(it, o).items is not None for o in os):
        ex = [x for o in os for x in set_of(it, o).items]
        return SSet(items=[x for x in s.items if x not in ex])
    p = s.contains_fn()
    qs = [set_of(it, o).contains_fn() for o in os]
    return SSet(pred=lambda y: tm.and_(p(y), *[tm.not_(q(y)) for q in qs]))


def set_inter(it, s, *os):
    os = [set_of(it, o) for o in os]
    if s.items is not None and all(o.items is not None for o in os):
        return SSet(items=[x for x in s.items if all(x in o.items for o in os)])
    ps = [s.contains_fn()] + [o.contains_fn() for o in os]
    return SSet(pred=lambda y: tm.and_(*[p(y) for p in ps]))


SET_METHODS = dict(
    intersection=set_inter,
    add=lambda it, s, x: s.add(x),
    union=set_union,
    difference=set_diff,
    copy=lambda it, s: SSet(items=s.items, pred=s.pred),
    update=lambda it, s, o: [s.add(x) for x in it.iter_list(o)] and None,
)


def set_of(it, x):
    if isinstance(x, SSet):
        return x
    return MODELS[set](it, x)


# ------------------------------------------------------------------ builtins
@model(len)
def m_len(it, x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise PyRaise(TypeError("len() of unsized object"))
        return x.shape[0]
    if isinstance(x, (SList, SRange)):
        return simp(x.length()) if isinstance(x.length(), T) else x.length()
    if isinstance(x, SDict):
        return len(x.d)
    if isinstance(x, SSet) and x.items is not None:
        return len(x.items)
    h = getattr(x, "pyvc_len", None)
    if h is not None:
        return h(it)
    if isinstance(x, SObj):
        f = it.class_attr(x.cls, "__len__")
        if f is not None:
            return it.call(BoundMethod(f, x))
    if isinstance(x, (T, int, Fraction, type(None))):
        raise PyRaise(TypeError("object has no len()"))
    if not is_sym(x):
        return len(x)
    raise Unsupported(f"len of {x!r}")


@model(range)
def m_range(it, *a):
    a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    for x in a:
        if isinstance(x, Fraction) or (isinstance(x, T) and x.sort == "R"):
            raise PyRaise(TypeError("range expects integers"))
    if not any(isinstance(x, T) for x in a):
        return SList([k for k in range(*a)], is_tuple=True)
    r = SRange(*a)
    if not isinstance(r.step, int):
        pass
    return r


def _symlen(n):
    if isinstance(n, T):
        v = tm.numval(n)
        return int(v) if v is not None else n
    return n


@model(enumerate)
def m_enumerate(it, x, start=0):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        return SList([SList([scalar_binop(it, "Add", k, start), s.get(k)], is_tuple=True) for k in range(n)])
    return SList(n=n, fn=lambda k: SList([k + const(start), s.get(k)], is_tuple=True))


@model(zip)
def m_zip(it, *xs, strict=False):
    ss = [it.sequence(x) for x in xs]
    ns = [_symlen(s.length()) for s in ss]
    n = ns[0]
    for k in ns[1:]:
        if isinstance(n, int) and isinstance(k, int):
            if n != k:
                if strict:
                    raise PyRaise(ValueError("zip() arguments of different length"))
                n = min(n, k)
        elif not dim_eq(n, k):
            if it.m.branch(tm.eq(const(n), const(k))):
                continue
            if strict:
                raise PyRaise(ValueError("zip() arguments of different length"))
            n = tm.minimum(const(n), const(k))
    if isinstance(n, int):
        return SList([SList([s.get(k) for s in ss], is_tuple=True) for k in range(n)])
    return SList(n=n, fn=lambda k: SList([s.get(k) for s in ss], is_tuple=True))


@model(reversed)
def m_reversed(it, x):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        return SList([s.get(k) for k in range(n - 1, -1, -1)])
    return SList(n=n, fn=lambda k: s.get(n - 1 - k))


def _minmax(it, kind, args, key=None, default=None):
    if len(args) == 1:
        s = it.sequence(args[0])
        n = _symlen(s.length())
        if not isinstance(n, int):
            if key is not None:
                raise Unsupported("min/max with key over symbolic sequence")
            return simp(tm.bigop(kind, n, lambda k: num_of(s.get(k))))
        items = [s.get(k) for k in range(n)]
    else:
        items = list(args)
    if not items:
        if default is not None:
            return default
        raise PyRaise(ValueError("empty sequence"))
    if key is not None:
        best = items[0]
        kb = it.call(key, [best])
        for x in items[1:]:
            kx = it.call(key, [x])
            if it.truth(it.compare("Lt" if kind == "min" else "Gt", kx, kb)):
                best, kb = x, kx
        return best
    if any(isinstance(x, SArr) for x in items):
        items = [simp(x.get(*[0] * x.ndim)) if isinstance(x, SArr) and all(d == 1 for d in x.shape) else x for x in items]
    if not any(is_sym(x) for x in items):
        return (min if kind == "min" else max)(items)
    r = const(items[0])
    for x in items[1:]:
        x = const(x)
        if r.sort == "I" and x.sort == "I" and not (tm.is_num(r) and tm.is_num(x)):
            # integer bounds: resolve with the path facts when they decide it
            if it.m.known(tm.le(r, x)):
                r = r if kind == "min" else x
                continue
            if it.m.known(tm.le(x, r)):
                r = x if kind == "min" else r
                continue
        r = tm.minimum(r, x) if kind == "min" else tm.maximum(r, x)
    return simp(r)


@model(min)
def m_min(it, *a, key=None, default=None):
    return _minmax(it, "min", a, key, default)


@model(max)
def m_max(it, *a, key=None, default=None):
    return _minmax(it, "max", a, key, default)


@model(abs, np.abs, np.absolute, np.fabs)
def m_abs(it, x):
    if isinstance(x, (SArr, SList)):
        return elementwise(it, lambda t: tm.absval(num_of(t)), x)
    if isinstance(x, T):
        return simp(tm.absval(num_of(x)))
    if isinstance(x, SObj):
        f = it.class_attr(x.cls, "__abs__")
        return it.call(BoundMethod(f, x))
    h = getattr(x, "pyvc_abs", None)
    if h:
        return h(it)
    return abs(x)


@model(sum)
def m_pysum(it, x, start=0):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        r = start
        for k in range(n):
            r = it.binop("Add", r, s.get(k))
        return r
    return scalar_binop(it, "Add", start, simp(tm.bigsum(n, lambda k: num_of(s.get(k)))))


@model(int, np.int64, np.int32, np.intp)
def m_int(it, x=0):
    if isinstance(x, T):
        if x.sort == "B":
            return tm.ind(x)
        if x.sort == "I":
            return x
        if it.m.branch(tm.le(0, x)):
            return simp(tm.floor(x))
        return simp(tm.ceil(x))
    if isinstance(x, SArr) and all(d == 1 for d in x.shape):
        return m_int(it, simp(x.get(*[0] * x.ndim)))
    if isinstance(x, (str, float)):
        try:
            return int(x)
        except Exception as e:
            raise PyRaise(e) from None
    if isinstance(x, (SArr, SList, type(None), SObj)):
        raise PyRaise(TypeError("int()"))
    return int(x)


@model(float, np.float64)
def m_float(it, x=0):
    if isinstance(x, T):
        return num_of(x)
    if isinstance(x, SArr) and all(d == 1 for d in x.shape):
        return simp(x.get(*[0] * x.ndim))
    if isinstance(x, (SArr, SList, type(None), SObj, SDict)):
        raise PyRaise(TypeError("float()"))
    if isinstance(x, str):
        try:
            return abstractize(float(x))
        except Exception as e:
            raise PyRaise(e) from None
    return x


@model(bool, np.bool_)
def m_bool(it, x=False):
    b = it.to_bool(x)
    return b


@model(str, repr)
def m_str(it, x=""):
    if is_sym(x):
        return Opaque("str")
    return str(concretize(x))


@model(round, np.round)
def m_round(it, x, *a, **k):
    if isinstance(x, T):
        if x.sort == "I":
            return x
        if a or k:
            raise Unsupported("round decimals")
        # round half to even: |r - x| <= 1/2
        r = tm.app("round", [x], "I")
        it.m.assume(tm.le(r - x, Fraction(1, 2)), tm.le(x - r, Fraction(1, 2)))
        return r
    return abstractize(round(concretize(x), *a))


@model(list)
def m_list(it, x=None):
    if x is None:
        return SList([])
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        return SList([s.get(k) for k in range(n)])
    return SList(n=n, fn=lambda k: s.get(k))


@model(tuple)
def m_tuple(it, x=None):
    l = m_list(it, x)
    l.is_tuple = True
    return l


@model(iter)
def m_iter(it, x):
    return SIter(it.sequence(x))


class SIter(SObj):
    """iterator over a sequence"""

    def __init__(self, seq):
        super().__init__(object, {"seq": seq, "pos": 0})

    def pyvc_sequence(self, it):
        seq, pos = self.attrs["seq"], self.attrs["pos"]
        if pos == 0:
            return seq
        n = seq.length()
        n = n if isinstance(n, int) else tm.numval(const(n))
        if n is None:
            raise Unsupported("iteration over a partly consumed iterator")
        return SList([seq.get(k) for k in range(pos, int(n))])


@model(next)
def m_next(it, x, *default):
    if not isinstance(x, SIter):
        raise Unsupported("next()")
    seq, pos = x.attrs["seq"], x.attrs["pos"]
    n = seq.length()
    if not isinstance(n, int):
        v = tm.numval(const(n))
        n = int(v) if v is not None else n
    more = pos < n if isinstance(n, int) else it.m.branch(tm.lt(pos, n))
    if more:
        x.setattr("pos", pos + 1)
        return seq.get(pos)
    if default:
        return default[0]
    raise PyRaise(StopIteration())


@model(dict)
def m_dict(it, x=None, **kw):
    d = SDict()
    if x is not None:
        if isinstance(x, SDict):
            d.d.update(x.d)
        else:
            for p in it.iter_list(x):
                k, v = it.iter_list(p)
                d.d[it.hashable(k)] = v
    d.d.update(kw)
    return d


@model(set, frozenset)
def m_set(it, x=None):
    if x is None:
        return SSet(items=[])
    if isinstance(x, SSet):
        return SSet(items=x.items, pred=x.pred)
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        from .interp import _mkset

        return _mkset([s.get(k) for k in range(n)])
    out = SSet(pred=lambda y: tm.exists(n, lambda k: tm.eq(const(s.get(k)), y)))
    out.source = (n, s, out.pred)
    return out


def set_elements(it, s):
    """the elements of a symbolic set: distinct, in an unknown order"""
    n, src, _ = s.source
    sort = const(src.get(tm.fresh("k", "I"))).sort
    m, e = tm.fresh("card", "I"), tm.fresh("elem", "I").args[0]
    at = lambda k: tm.app(e, (const(k),), sort)
    it.m.assume(tm.and_(tm.le(0, m), tm.le(m, n)))
    it.m.assume(tm.implies(tm.lt(0, n), tm.lt(0, m)))
    it.m.assume(tm.forall(m, lambda k: s.pred(at(k))))
    it.m.assume(tm.forall(m, lambda k: tm.forall(m, lambda q: tm.or_(tm.eq(k, q), tm.ne(at(k), at(q))))))
    it.m.assume(tm.forall(n, lambda i: tm.exists(m, lambda k: tm.eq(const(src.get(i)), at(k)))))
    return SList(n=m, fn=at)


@model(isinstance)
def m_isinstance(it, x, cls):
    if isinstance(cls, SList):
        cls = tuple(cls.items)
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if not isinstance(cls, tuple):
        cls = (cls,)
    t = type_of(x)
    for c in cls:
        if c in (numbers.Number, numbers.Real) and t in (int, float, bool):
            return True
        if c is numbers.Integral and t in (int, bool):
            return True
        if isinstance(c, types.UnionType):
            if m_isinstance(it, x, SList(list(c.__args__))):
                return True
            continue
        if c in (np.ndarray,) and t is np.ndarray:
            return True
        try:
            if t is not None and issubclass(t, c):
                return True
        except TypeError:
            raise Unsupported(f"isinstance {c}")
    return False


def type_of(x):
    h = getattr(x, "pyvc_type", None)
    if h is not None:
        return h
    if isinstance(x, T):
        return {"I": int, "R": float, "B": bool}.get(x.sort, object)
    if isinstance(x, Fraction):
        return float
    if isinstance(x, SArr):
        return np.ndarray
    if isinstance(x, SList):
        return tuple if x.is_tuple else list
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SSet):
        return set
    if isinstance(x, SObj):
        return x.cls
    if isinstance(x, SFunc):
        return types.FunctionType
    if isinstance(x, BoundMethod):
        return types.MethodType
    if isinstance(x, Opaque):
        return str
    h = getattr(x, "pyvc_type", None)
    if h is not None:
        return h
    return type(x)


@model(type)
def m_type(it, x):
    return type_of(x)


@model(issubclass)
def m_issubclass(it, a, b):
    return issubclass(a, tuple(b.items) if isinstance(b, SList) else b)


@model(getattr)
def m_getattr(it, o, name, *default):
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if default and isinstance(e.exc, AttributeError):
            return default[0]
        raise


@model(setattr)
def m_setattr(it, o, name, v):
    it.setattr(o, name, v)


@model(delattr)
def m_delattr(it, o, name):
    it.delattr(o, name)


@model(hasattr)
def m_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@model(callable)
def m_callable(it, x):
    return isinstance(x, (SFunc, BoundMethod)) or callable(x)


@model(any)
def m_any_py(it, x):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        r = tm.or_(*[const(it.to_bool(s.get(k))) for k in range(n)])
    else:
        r = tm.exists(n, lambda k: const(it.to_bool(s.get(k))))
    return simp(r)


@model(all)
def m_all_py(it, x):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        r = tm.and_(*[const(it.to_bool(s.get(k))) for k in range(n)])
    else:
        r = tm.forall(n, lambda k: const(it.to_bool(s.get(k))))
    return simp(r)


@model(map)
def m_map(it, f, x):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        return SList([it.call(f, [s.get(k)]) for k in range(n)])
    return SList(n=n, fn=lambda k: it.call(f, [s.get(k)]))


@model(sorted)
def m_sorted(it, x, key=None, reverse=False):
    s = it.sequence(x)
    n = _symlen(s.length())
    if isinstance(n, int):
        items = [s.get(k) for k in range(n)]
        ks = [it.call(key, [y]) if key is not None else y for y in items]
        if not any(is_sym(k) for k in ks):
            o = sorted(range(n), key=lambda i: concretize(ks[i]), reverse=bool(reverse))
            return SList([items[i] for i in o])
        # insertion sort with branching
        out = []
        for i in range(n):
            j = len(out)
            while j > 0:
                c = it.compare("Gt" if reverse else "Lt", ks[i], ks[out[j - 1]])
                if it.truth(c):
                    j -= 1
                else:
                    break
            out.insert(j, i)
        return SList([items[i] for i in out])
    raise Unsupported("sorted of symbolic sequence")


@model(print, warnings.warn, warnings.filterwarnings, warnings.simplefilter)
def m_noop(it, *a, **k):
    return None


@model(hash, id)
def m_hash(it, x):
    return Opaque("hash")


@model(copy.deepcopy, copy.copy)
def m_copy(it, x, *a):
    if isinstance(x, SArr):
        return copy_arr(it, x)
    if isinstance(x, SList):
        return l_copy(it, x)
    if isinstance(x, SDict):
        return SDict(x.d)
    if isinstance(x, SObj):
        f = it.class_attr(x.cls, "__copy__")
        if f is not None:
            return it.call(f, [x])
        return SObj(x.cls, x.attrs)
    return x


@model(math.ceil, np.ceil)
def m_ceil(it, x):
    if isinstance(x, SArr):
        return elementwise(it, tm.ceil, x)
    return simp(tm.ceil(const(x)))


@model(math.floor, np.floor)
def m_floor(it, x):
    if isinstance(x, SArr):
        return elementwise(it, tm.floor, x)
    return simp(tm.floor(const(x)))


# --------------------------------------------------------------- numpy models
def _unary(f, sort="R"):
    def g(it, x, *a, **k):
        if k:
            raise Unsupported("ufunc keyword")
        if isinstance(x, (SArr, SList, np.ndarray)):
            return elementwise(it, lambda t: f(num_of(t)), x, sort=sort)
        h = getattr(x, "pyvc_map", None)
        if h is not None:
            return h(it, lambda t: f(num_of(t)))
        h = getattr(x, "pyvc_array", None)
        if h is not None:
            return elementwise(it, lambda t: f(num_of(t)), h(it), sort=sort)
        return simp(f(num_of(const(x))))

    return g


MODELS[np.sqrt] = _unary(tm.sqrt)
MODELS[math.sqrt] = _unary(tm.sqrt)
MODELS[np.exp] = _unary(tm.exp)
MODELS[math.exp] = _unary(tm.exp)
MODELS[np.log] = _unary(tm.log)
MODELS[math.log] = _unary(tm.log)
MODELS[np.log1p] = _unary(lambda x: tm.log(x + 1))
MODELS[np.expm1] = _unary(lambda x: tm.exp(x) - 1)
MODELS[np.square] = _unary(lambda x: x * x)
MODELS[np.negative] = _unary(lambda x: -x)
MODELS[np.sign] = _unary(lambda x: tm.ind(tm.lt(0, x)) - tm.ind(tm.lt(x, 0)), sort="I")


def _binary(op):
    return lambda it, a, b: it.binop(op, a, b)


MODELS[np.add] = _binary("Add")
MODELS[np.subtract] = _binary("Sub")
MODELS[np.multiply] = _binary("Mult")
MODELS[np.divide] = _binary("Div")
MODELS[np.power] = _binary("Pow")
MODELS[np.floor_divide] = _binary("FloorDiv")
MODELS[np.true_divide] = _binary("Div")
MODELS[np.logical_and] = lambda it, a, b: elementwise(it, lambda x, y: tm.and_(_b(x), _b(y)), a, b, sort="B")
MODELS[np.logical_or] = lambda it, a, b: elementwise(it, lambda x, y: tm.or_(_b(x), _b(y)), a, b, sort="B")
MODELS[np.invert] = lambda it, a: elementwise(it, lambda x: tm.not_(_b(x)), a, sort="B")
MODELS[np.logical_not] = lambda it, a: elementwise(it, lambda x: tm.not_(_b(x)), a, sort="B")


def _b(x):
    return x if x.sort == "B" else tm.ne(x, 0)


@model(np.maximum)
def m_maximum(it, a, b):
    return elementwise(it, lambda x, y: tm.maximum(num_of(x), num_of(y)), a, b)


@model(np.minimum)
def m_minimum(it, a, b):
    return elementwise(it, lambda x, y: tm.minimum(num_of(x), num_of(y)), a, b)


@model(np.clip)
def m_clip(it, a, a_min=None, a_max=None):
    r = a
    if isinstance(a, SArr) and all(isinstance(b, NUMERIC) or b is None for b in (a_min, a_max)):
        A = a.frozen()
        inside = tm.forall_n(A.shape, lambda *i: tm.and_(tm.TRUE if a_min is None else tm.le(const(a_min), A.get(*i)), tm.TRUE if a_max is None else tm.le(A.get(*i), const(a_max))))
        if it.m.prover.prove(it.m.facts, inside, timeout_ms=2000, depth=9):
            return SArr(A.shape, A.get, A.sort)
    if a_min is not None:
        r = elementwise(it, lambda x, y: tm.maximum(num_of(x), num_of(y)), r, a_min)
    if a_max is not None:
        r = elementwise(it, lambda x, y: tm.minimum(num_of(x), num_of(y)), r, a_max)
    return r


@model(np.where)
def m_where(it, c, a=None, b=None):
    if a is None:
        return SList([nonzero1(it, c)], is_tuple=True) if to_arr(it, c).ndim == 1 else m_nonzero(it, c)
    return elementwise(it, lambda p, x, y: tm.ite(_b(p), num_of(x), num_of(y)), c, a, b, sortf=lambda s, s1, s2: join_sorts([s1, s2]))


def norm_axis(a, axis):
    if isinstance(axis, int):
        return axis + a.ndim if axis < 0 else axis
    raise Unsupported("axis")


def reduce_(it, a, axis, f, sort=None, keepdims=False):
    """f(n, getter) -> T"""
    a = to_arr(it, a).frozen()
    if axis is None:
        if a.ndim == 0:
            return f(tm.ONE, lambda k: a.get())
        if a.ndim == 1:
            return f(const(a.shape[0]), lambda k: a.get(k))
        raise Unsupported("full reduction of nd array")
    ax = norm_axis(a, axis)
    n = const(a.shape[ax])
    shp = a.shape[:ax] + a.shape[ax + 1 :]
    if not shp:
        r = f(n, lambda k: a.get(k))
        if keepdims:
            return SArr((1,), lambda i: const(r), sort or a.sort)
        return r
    if keepdims:
        shp = a.shape[:ax] + (1,) + a.shape[ax + 1 :]
        return SArr(shp, lambda *i: f(n, lambda k: a.get(*i[:ax], k, *i[ax + 1 :])), sort or a.sort)
    return SArr(shp, lambda *i: f(n, lambda k: a.get(*i[:ax], k, *i[ax:])), sort or a.sort)


def _ret(x):
    return simp(x) if isinstance(x, T) else x


def _sum(n, g):
    return tm.bigsum(n, lambda k: num_of(g(k)))


@model(np.nansum)
def m_nansum(it, a, axis=None, **k):
    A = to_arr(it, a)
    if A.nan is not None:
        f = A.frozen()
        A = SArr(A.shape, lambda *i: tm.ite(f.nan(*i), tm.ZERO, num_of(f.get(*i))), "R")
    return m_sum(it, A, axis, **k)


@model(np.sum)
def m_sum(it, a, axis=None, keepdims=False, dtype=None):
    A = to_arr(it, a)
    if axis is None and A.ndim >= 2:
        fz = A.frozen()

        def rec(pre, k):
            if k == A.ndim:
                return num_of(fz.get(*pre))
            return tm.bigsum(A.shape[k], lambda j: rec(pre + (j,), k + 1))

        return simp(rec((), 0))
    sel = getattr(a, "selection", None)
    return _ret(reduce_(it, A, axis, _sum, keepdims=keepdims, sort="R" if A.sort == "R" else "I"))


@model(np.mean)
def m_mean(it, a, axis=None, keepdims=False, dtype=None):
    A = to_arr(it, a)
    if axis is None and A.ndim >= 2:
        return it.binop("Div", m_sum(it, A), array_attr(it, A, "size"))
    return _ret(reduce_(it, A, axis, lambda n, g: tm.div(_sum(n, g), n), sort="R", keepdims=keepdims))


def _var(ddof):
    def f(n, g):
        mu = tm.div(_sum(n, g), n)
        return tm.div(tm.bigsum(n, lambda k: tm.power(num_of(g(k)) - mu, 2)), n - const(ddof))

    return f


@model(np.var)
def m_var(it, a, axis=None, ddof=0, dtype=None, keepdims=False):
    return _ret(reduce_(it, a, axis, _var(ddof), sort="R", keepdims=keepdims))


@model(np.std)
def m_std(it, a, axis=None, ddof=0, dtype=None, keepdims=False):
    return _ret(reduce_(it, a, axis, lambda n, g: tm.sqrt(_var(ddof)(n, g)), sort="R", keepdims=keepdims))


@model(np.max, np.amax)
def m_npmax(it, a, axis=None, **k):
    return _ret(reduce_(it, a, axis, lambda n, g: tm.bigop("max", n, lambda i: num_of(g(i)))))


@model(np.min, np.amin)
def m_npmin(it, a, axis=None, **k):
    return _ret(reduce_(it, a, axis, lambda n, g: tm.bigop("min", n, lambda i: num_of(g(i)))))


@model(np.any)
def m_npany(it, a, axis=None, **k):
    A = to_arr(it, a)
    if axis is None and A.ndim >= 2:
        fz = A.frozen()

        def rec(pre, k):
            if k == A.ndim:
                return _b(fz.get(*pre))
            return tm.exists(A.shape[k], lambda j: rec(pre + (j,), k + 1))

        return simp(rec((), 0))
    return _ret(reduce_(it, a, axis, lambda n, g: tm.exists(n, lambda i: _b(g(i))), sort="B"))


@model(np.all)
def m_npall(it, a, axis=None, **k):
    A = to_arr(it, a)
    if axis is None and A.ndim >= 2:
        fz = A.frozen()

        def rec(pre, k):
            if k == A.ndim:
                return _b(fz.get(*pre))
            return tm.forall(A.shape[k], lambda j: rec(pre + (j,), k + 1))

        return simp(rec((), 0))
    return _ret(reduce_(it, a, axis, lambda n, g: tm.forall(n, lambda i: _b(g(i))), sort="B"))


@model(np.prod)
def m_prod(it, a, axis=None, **k):
    return _ret(reduce_(it, a, axis, lambda n, g: tm.bigop("prod", n, lambda i: num_of(g(i)))))


@model(np.count_nonzero)
def m_cnz(it, a, axis=None, **k):
    return _ret(reduce_(it, a, axis, lambda n, g: tm.bigsum(n, lambda i: tm.ind(_b(g(i)))), sort="I"))


@model(np.cumsum)
def m_cumsum(it, a, axis=None):
    A = to_arr(it, a).frozen()
    if axis is None and A.ndim != 1:
        raise Unsupported("cumsum flatten")
    ax = norm_axis(A, axis if axis is not None else 0)
    return SArr(A.shape, lambda *i: tm.bigsum(i[ax] + 1, lambda k: num_of(A.get(*i[:ax], k, *i[ax + 1 :]))), "I" if A.sort == "B" else A.sort)


@model(np.cumprod)
def m_cumprod(it, a, axis=None):
    A = to_arr(it, a).frozen()
    ax = norm_axis(A, axis if axis is not None else 0)
    return SArr(A.shape, lambda *i: tm.bigop("prod", i[ax] + 1, lambda k: num_of(A.get(*i[:ax], k, *i[ax + 1 :]))), A.sort)


@model(np.maximum.accumulate)
def m_maxacc(it, a, axis=0):
    A = to_arr(it, a).frozen()
    ax = norm_axis(A, axis)
    return SArr(A.shape, lambda *i: tm.bigop("max", i[ax] + 1, lambda k: num_of(A.get(*i[:ax], k, *i[ax + 1 :]))), A.sort)


@model(np.minimum.accumulate)
def m_minacc(it, a, axis=0):
    A = to_arr(it, a).frozen()
    ax = norm_axis(A, axis)
    return SArr(A.shape, lambda *i: tm.bigop("min", i[ax] + 1, lambda k: num_of(A.get(*i[:ax], k, *i[ax + 1 :]))), A.sort)


@model(np.diff)
def m_diff(it, a, n=1, axis=-1, **k):
    if k:
        raise Unsupported("diff keywords")
    A = to_arr(it, a).frozen()
    ax = norm_axis(A, axis)
    shp = list(A.shape)
    shp[ax] = scalar_binop(it, "Sub", shp[ax], 1)
    return SArr(shp, lambda *i: num_of(A.get(*i[:ax], i[ax] + 1, *i[ax + 1 :])) - num_of(A.get(*i)), "I" if A.sort == "B" else A.sort)


# order statistics -----------------------------------------------------------
def ordstat(A, k, rest=(), ax=0):
    """k-th smallest element of the 1-d array A"""
    n = const(A.shape[ax])
    return tm.bigop("ordstat", n, lambda i: num_of(A.get(*rest[:ax], i, *rest[ax:])), extra=(k,), sort="R" if A.sort == "R" else A.sort)


@model(np.sort)
def m_sort(it, a, axis=-1):
    A = to_arr(it, a).frozen()
    if A.ndim == 1:
        if isinstance(A.shape[0], int):
            return concrete_sort(it, A)
        return SArr(A.shape, lambda k: ordstat(A, k), A.sort)
    ax = norm_axis(A, axis)
    return SArr(A.shape, lambda *i: ordstat(A, i[ax], i[:ax] + i[ax + 1 :], ax), A.sort)


def concrete_sort(it, A):
    """sorting network on symbolic elements (concrete length)"""
    n = A.shape[0]
    xs = [A.get(k) for k in range(n)]
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = tm.minimum(a, b), tm.maximum(a, b)
    return SArr((n,), lambda k: _pick(xs, k), A.sort)


def _pick(xs, k):
    v = tm.numval(k)
    if v is not None:
        return xs[int(v)]
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = tm.ite(tm.eq(k, j), xs[j], r)
    return r


@model(np.partition)
def m_partition(it, a, kth, axis=-1):
    """assumed contract: element kth is the kth order statistic, the elements
    before it are the kth smallest ones (in unspecified order)"""
    A = to_arr(it, a).frozen()
    if A.ndim != 1:
        ax = norm_axis(A, axis)
        if A.ndim == 2 and ax == 0:
            return PartArr2(it, A, const(kth))
        raise Unsupported("partition nd")
    n = A.shape[0]
    if isinstance(n, int):
        return concrete_sort(it, A)
    k = const(kth)
    if not it.m.branch(tm.and_(tm.le(0, k), tm.lt(k, n))):
        raise PyRaise(ValueError("kth out of bounds"))
    return PartArr(it, A, k)


class PartArr(SArr):
    """result of np.partition: prefix sums and the kth element are determined,
    other elements are unspecified (but ordered relative to the kth)"""

    def __init__(self, it, A, k):
        v = tm.fresh("k", "I")
        key = tm.mkbind("lam", (const(A.shape[0]),), tm.abstract(A.get(v), [v.args[0]]), (k,), "R")
        nm, deps = ghost("part", key)
        self.kth = k
        self.src = A

        def fn(i):
            if i is k:
                return ordstat(A, k)
            return tm.app(nm, [*deps, i], A.sort)

        super().__init__(A.shape, fn, A.sort)
        it.m.facts.append(tm.forall(k, lambda i: tm.le(tm.app(nm, [*deps, i], A.sort), ordstat(A, k))))
        part_names.setdefault(nm, (A, k, [d.args[0] for d in deps]))


part_names: dict = {}


class PartArr2(SArr):
    """np.partition along axis 0 of a 2-d array"""

    def __init__(self, it, A, k):
        raise Unsupported("partition 2d")


def _rule_partition(ranges, atoms):
    """sum_{i<k} part(i) = sum_{i<k} ordstat(i)   (k the partition index)"""
    if len(ranges) == 1 and len(atoms) == 1:
        (v, n), = ranges
        (a, e), = atoms.items()
        if a.op == "app" and a.args[0] in part_names and e == 1 and a.args[-1] is v:
            A, k, deps = part_names[a.args[0]]
            mp = dict(zip(deps, a.args[1:-1]))
            if any(v.args[0] in t.fv for t in mp.values()):
                return None
            if n is tm.subst(k, mp):
                return tm.bigsum(n, lambda i: tm.subst(ordstat(A, i), mp))
            if n is tm.subst(const(A.shape[0]), mp):
                return tm.bigsum(n, lambda i: tm.subst(num_of(A.get(i)), mp))
    return None


tm._sum_rules.append(_rule_partition)


@model(np.argsort)
def m_argsort(it, a, axis=-1, kind=None):
    """assumed contract: a permutation p with a[p] sorted; ghost inverse"""
    A = to_arr(it, a).frozen()
    if A.ndim != 1:
        raise Unsupported("argsort nd")
    n = A.shape[0]
    if isinstance(n, int):
        items = m_sorted(it, SList(list(range(n))), key=_Meth(lambda it_, i: A.get(i)))
        return list_to_arr(it, items)
    nm, deps = ghost("argsort", _arr_key(A))
    p = lambda i: tm.app(nm, [*deps, i], "I")
    q = lambda i: tm.app(nm + "i", [*deps, i], "I")
    it.m.facts.append(tm.forall(n, lambda i: tm.and_(tm.le(0, p(i)), tm.lt(p(i), n), tm.eq(q(p(i)), i))))
    it.m.facts.append(tm.forall(n, lambda i: tm.and_(tm.le(0, q(i)), tm.lt(q(i), n), tm.eq(p(q(i)), i))))
    it.m.facts.append(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.or_(tm.lt(j, i), tm.le(A.get(p(i)), A.get(p(j)))))))
    r = SArr((n,), lambda i: p(i), "I")
    r.nonneg = True
    r.perm_of = (A, q)
    return r


@model(np.argmax)
def m_argmax(it, a, axis=None):
    return _arg(it, a, axis, True)


@model(np.argmin)
def m_argmin(it, a, axis=None):
    return _arg(it, a, axis, False)


def _arg(it, a, axis, mx):
    A = to_arr(it, a).frozen()
    if A.ndim != 1:
        raise Unsupported("argmax nd")
    n = const(A.shape[0])
    if A.sort == "B":
        A2 = A
        A = SArr(A.shape, lambda i: tm.ind(A2.get(i)), "I")
    if isinstance(A.shape[0], int):
        best = 0
        for k in range(1, A.shape[0]):
            x, y = A.get(k), A.get(best)
            if it.m.branch(tm.lt(y, x) if mx else tm.lt(x, y)):
                best = k
        return best
    r = it.m.fresh("i", "I")
    cmp_ = (lambda x, y: tm.le(x, y)) if mx else (lambda x, y: tm.le(y, x))
    cmps = (lambda x, y: tm.lt(x, y)) if mx else (lambda x, y: tm.lt(y, x))
    if not it.m.branch(tm.lt(0, n)):
        raise PyRaise(ValueError("attempt to get argmax of an empty sequence"))
    it.m.assume(tm.le(0, r), tm.lt(r, n))
    it.m.assume(tm.forall(n, lambda i: cmp_(A.get(i), A.get(r))))
    it.m.assume(tm.forall(r, lambda i: cmps(A.get(i), A.get(r))))
    return r


@model(np.arange)
def m_arange(it, *a, dtype=None):
    r = m_range(it, *a)
    if isinstance(r, SList):
        return list_to_arr(it, r) if r.items else SArr((0,), lambda i: tm.ZERO, "I")
    n = r.length()
    # simplify the length when start <= stop is known
    if n.op == "pos" or n.op == "poly":
        st, sp, s = const(r.start), const(r.stop), const(r.step)
        if tm.numval(s) == 1 and it.m.known(tm.le(st, sp)):
            n = sp - st
    return SArr((n,), lambda i: r.get(i), "I")


@model(np.asarray, np.ascontiguousarray)
def m_asarray(it, x, dtype=None, **k):
    if isinstance(x, SArr):
        return cast(it, x, dtype)
    r = to_arr(it, x)
    return cast(it, r, dtype)


def cast(it, a, dtype):
    if dtype is None:
        return a
    s = dtype_sort(dtype)
    if s is None or s == a.sort:
        return a
    return astype(it, a, dtype)


def dtype_sort(d):
    if d in (float, np.float64, np.float32, "float", "numeric"):
        return "R"
    if d in (int, np.int64, np.int32, "int", np.intp):
        return "I"
    if d in (bool, np.bool_, "bool"):
        return "B"
    return None


@model(np.array)
def m_array(it, x, dtype=None, copy=True, **k):
    r = to_arr(it, x)
    r = copy_arr(it, r)
    return cast(it, r, dtype)


def copy_arr(it, a, *args, **k):
    f = a.frozen()
    r = SArr(a.shape, f._fn, a.sort, nan=a.nan)
    return r


MODELS[np.copy] = copy_arr


def astype(it, a, dtype, **k):
    s = dtype_sort(dtype)
    f = a.frozen()
    if s == "B":
        return SArr(a.shape, lambda *i: _b(f.get(*i)), "B")
    if s == "I":
        if a.sort == "B":
            return SArr(a.shape, lambda *i: tm.ind(f.get(*i)), "I")
        if a.sort == "I":
            return copy_arr(it, a)
        return SArr(a.shape, lambda *i: tm.ite(tm.le(0, f.get(*i)), tm.floor(f.get(*i)), tm.ceil(f.get(*i))), "I")
    if s == "R":
        return SArr(a.shape, lambda *i: num_of(f.get(*i)), "R", nan=a.nan)
    raise Unsupported(f"astype {dtype}")


def _shape_arg(it, shape):
    if isinstance(shape, SList):
        return tuple(shape.items)
    return (shape,)


def _filled(v):
    def f(it, shape, dtype=None, **k):
        s = dtype_sort(dtype) if dtype is not None else "R"
        c = const(v)
        if s == "B":
            c = const(bool(v))
        return SArr(_shape_arg(it, shape), lambda *i: c, s or "R")

    return f


MODELS[np.zeros] = _filled(0)
MODELS[np.ones] = _filled(1)


@model(np.empty)
def m_empty(it, shape, dtype=None, **k):
    s = dtype_sort(dtype) if dtype is not None else "R"
    return SArr(_shape_arg(it, shape), it.m.fresh_fn("empty", s), s)


@model(np.full)
def m_full(it, shape, fill_value, dtype=None, **k):
    shape = _shape_arg(it, shape)
    v = to_arr(it, fill_value).frozen()
    s = dtype_sort(dtype) if dtype is not None else v.sort
    nd = len(shape)
    return SArr(shape, lambda *i: coerce(bget(v, nd, i), s), s)


@model(np.zeros_like)
def m_zeros_like(it, a, dtype=None, **k):
    A = to_arr(it, a)
    s = dtype_sort(dtype) if dtype is not None else A.sort
    return SArr(A.shape, lambda *i: FALSE if s == "B" else tm.ZERO, s)


@model(np.ones_like)
def m_ones_like(it, a, dtype=None, **k):
    A = to_arr(it, a)
    s = dtype_sort(dtype) if dtype is not None else A.sort
    return SArr(A.shape, lambda *i: TRUE if s == "B" else tm.ONE, s)


@model(np.full_like)
def m_full_like(it, a, v, **k):
    A = to_arr(it, a)
    return SArr(A.shape, lambda *i: const(v), A.sort)


@model(np.eye, np.identity)
def m_eye(it, n, m=None, **k):
    return SArr((n, n if m is None else m), lambda i, j: tm.ind(tm.eq(i, j)), "R")


@model(np.diag)
def m_diag(it, a, k=0):
    A = to_arr(it, a).frozen()
    if A.ndim == 1:
        n = A.shape[0]
        return SArr((n, n), lambda i, j: tm.ind(tm.eq(i, j)) * num_of(A.get(i)), A.sort)
    if A.ndim == 2:
        return SArr((A.shape[0],), lambda i: A.get(i, i), A.sort)
    raise Unsupported("diag")


MODELS[np.diagonal] = m_diag


@model(np.fill_diagonal)
def m_fill_diagonal(it, a, val):
    it.note_write(a.root())
    old = a.frozen()
    v = to_arr(it, val).frozen()
    _store(it, a, lambda i, j: tm.ite(tm.eq(i, j), v.get() if v.ndim == 0 else v.get(i), old.get(i, j)), v.sort)


@model(np.outer)
def m_outer(it, a, b):
    A, B = to_arr(it, a).frozen(), to_arr(it, b).frozen()
    return SArr((A.shape[0], B.shape[0]), lambda i, j: num_of(A.get(i)) * num_of(B.get(j)))


@model(np.trace)
def m_trace(it, a):
    A = to_arr(it, a).frozen()
    return simp(tm.bigsum(A.shape[0], lambda i: A.get(i, i)))


@model(np.isnan)
def m_isnan(it, x):
    if isinstance(x, SArr):
        if x.nan is None:
            return SArr(x.shape, lambda *i: FALSE, "B")
        nan = x.nan
        return SArr(x.shape, lambda *i: nan(*i), "B")
    if isinstance(x, float):
        return x != x
    if isinstance(x, NUMERIC):
        return False
    h = getattr(x, "pyvc_isnan", None)
    if h is not None:
        return h(it)
    raise Unsupported("isnan")


@model(np.isfinite)
def m_isfinite(it, x):
    r = m_isnan(it, x)
    if isinstance(r, SArr):
        f = r.frozen()
        return SArr(r.shape, lambda *i: tm.not_(f.get(*i)), "B")
    return not r


@model(np.isinf, np.isneginf, np.isposinf)
def m_isinf(it, x):
    if isinstance(x, SArr):
        return SArr(x.shape, lambda *i: FALSE, "B")
    if isinstance(x, float):
        return math.isinf(x)
    return False


@model(np.isscalar)
def m_isscalar(it, x):
    return isinstance(x, NUMERIC) or isinstance(x, str)


@model(np.ndim)
def m_ndim(it, x):
    return to_arr(it, x).ndim


@model(np.shape)
def m_shape(it, x):
    return array_attr(it, to_arr(it, x), "shape")


@model(np.size)
def m_size(it, x):
    return array_attr(it, to_arr(it, x), "size")


@model(np.isclose)
def m_isclose(it, a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    return elementwise(it, lambda x, y: tm.le(tm.absval(x - y), const(atol) + const(rtol) * tm.absval(y)), a, b, sort="B")


@model(np.array_equal)
def m_array_equal(it, a, b):
    if a is None or b is None:
        return a is None and b is None
    A, B = to_arr(it, a), to_arr(it, b)
    if A.ndim != B.ndim:
        return False
    for x, y in zip(A.shape, B.shape):
        if not it.same_dim(x, y):
            return False
    return m_npall(it, array_compare(it, "Eq", A, B))


@model(np.expand_dims)
def m_expand_dims(it, a, axis):
    A = to_arr(it, a)
    ix = [slice(None)] * A.ndim
    ix.insert(axis if axis >= 0 else A.ndim + 1 + axis, None)
    return array_getitem(it, A, SList(ix, is_tuple=True))


@model(np.squeeze)
def m_squeeze(it, a, axis=None):
    A = to_arr(it, a)
    ix = []
    for d in A.shape:
        ix.append(0 if isinstance(d, int) and d == 1 else slice(None))
    if not ix:
        return a
    return array_getitem(it, A, SList(ix, is_tuple=True))


def m_reshape(it, a, *shape, **k):
    A = to_arr(it, a)
    if len(shape) == 1 and isinstance(shape[0], SList):
        shape = tuple(shape[0].items)
    shape = tuple(concretize(simp(s)) if isinstance(s, T) and tm.numval(simp(s)) is not None else s for s in shape)
    shape = tuple(int(s) if isinstance(s, Fraction) else s for s in shape)
    order = k.get("order", "C")
    if order not in ("C", "F"):
        raise Unsupported(f"reshape in order {order}")
    f = A.frozen()
    if A.ndim == 1:
        if shape == (-1, 1):
            return SArr((A.shape[0], 1), lambda i, j: f.get(i), A.sort)
        if shape == (1, -1):
            return SArr((1, A.shape[0]), lambda i, j: f.get(j), A.sort)
        if shape == (-1,):
            return A
    if A.ndim == 2 and shape == (-1,):
        return m_ravel(it, A, order=order)

    def rearranged(old, new, get):
        r = np.arange(int(np.prod(old))).reshape(old).reshape(new, order=order)
        where = list(np.ndindex(*old))

        def fn(*i):
            vs = [tm.numval(const(x)) for x in i]
            if any(v is None for v in vs):
                raise Unsupported("symbolic index into reshaped")
            return get(*where[int(r[tuple(int(v) for v in vs)])])

        return r.shape, fn

    if all(isinstance(d, int) for d in A.shape) and all(isinstance(s, int) for s in shape):
        new, fn = rearranged(A.shape, shape, f.get)
        return SArr(new, fn, A.sort)
    if A.ndim > 1 and len(shape) > 1 and all(isinstance(d, int) for d in (*A.shape[1:], *shape[1:])) and const(A.shape[0]) == const(shape[0]) and np.prod(A.shape[1:]) == np.prod(shape[1:]):
        new, fn = rearranged(A.shape[1:], shape[1:], lambda *i: i)  # first axis kept in either order
        return SArr((A.shape[0], *new), lambda b, *i: f.get(b, *fn(*i)), A.sort)
    raise Unsupported(f"reshape {shape}")


MODELS[np.reshape] = m_reshape


def m_ravel(it, a, order="C", **k):
    A = to_arr(it, a)
    if A.ndim == 1:
        return A
    if order == "F" and A.ndim == 2:
        f = A.frozen()
        A = SArr((A.shape[1], A.shape[0]), lambda i, j: f.get(j, i), A.sort)
    elif order != "C":
        raise Unsupported(f"ravel in order {order}")
    if A.ndim == 2:
        f = A.frozen()
        n, m = A.shape
        if isinstance(m, int) and m == 1:
            return SArr((n,), lambda i: f.get(i, 0), A.sort)
        if isinstance(n, int) and n == 1:
            return SArr((m,), lambda i: f.get(0, i), A.sort)
        if isinstance(n, int) and isinstance(m, int):
            return m_reshape(it, A, n * m)
        if isinstance(n, int) and n > 0:

            def at(i):
                r = f.get(n - 1, i - (n - 1) * const(m))
                for k in range(n - 2, -1, -1):
                    r = tm.ite(tm.lt(i, (k + 1) * const(m)), f.get(k, i - k * const(m)), r)
                return r

            return SArr((n * const(m),), lambda i: at(const(i)), A.sort)
    raise Unsupported("ravel")


MODELS[np.ravel] = m_ravel


@model(np.kron)
def m_kron(it, a, b):
    A, B = to_arr(it, a).frozen(), to_arr(it, b).frozen()
    if A.ndim != 2 or B.ndim != 2 or not all(isinstance(d, int) for d in (*A.shape, *B.shape)):
        raise Unsupported("kron")
    p, q = B.shape

    def at(i, j):
        v = [tm.numval(const(x)) for x in (i, j)]
        if None in v:
            raise Unsupported("symbolic index into kron")
        i, j = map(int, v)
        return A.get(i // p, j // q) * B.get(i % p, j % q)

    return SArr((A.shape[0] * p, A.shape[1] * q), at)


@model(np.concatenate, np.hstack)
def m_concat(it, xs, axis=0):
    s = it.sequence(xs)
    n = _symlen(s.length())
    if isinstance(n, int):
        arrs = [to_arr(it, s.get(k)).frozen() for k in range(n)]
        if not arrs:
            raise PyRaise(ValueError("need at least one array to concatenate"))
        nd = arrs[0].ndim
        ax = axis + nd if axis < 0 else axis
        sort = join_sorts([a.sort for a in arrs])
        offs = [tm.ZERO]
        for a in arrs:
            offs.append(offs[-1] + const(a.shape[ax]))
        for a in arrs[1:]:
            for d in range(nd):
                if d != ax and not it.same_dim(arrs[0].shape[d], a.shape[d]):
                    raise PyRaise(ValueError("dimension mismatch in concatenate"))
        shp = list(arrs[0].shape)
        shp[ax] = offs[-1]

        def fn(*i):
            j = i[ax]
            v = tm.numval(j)
            allc = all(tm.numval(o) is not None for o in offs)
            if v is not None and allc:
                for k in range(n):
                    if tm.numval(offs[k]) <= v < tm.numval(offs[k + 1]):
                        return coerce(arrs[k].get(*i[:ax], j - offs[k], *i[ax + 1 :]), sort)
            r = coerce(arrs[-1].get(*i[:ax], j - offs[n - 1], *i[ax + 1 :]), sort)
            for k in range(n - 2, -1, -1):
                r = tm.ite(tm.lt(j, offs[k + 1]), coerce(arrs[k].get(*i[:ax], j - offs[k], *i[ax + 1 :]), sort), r)
            return r

        return SArr(shp, fn, sort)
    raise Unsupported("concatenate symbolic list")


def m_hstack(it, xs):
    s = it.sequence(xs)
    n = _symlen(s.length())
    if isinstance(n, int) and n:
        nd = to_arr(it, s.get(0)).ndim
        return m_concat(it, xs, axis=0 if nd == 1 else 1)
    raise Unsupported("hstack")


MODELS[np.hstack] = m_hstack


@model(np.vstack)
def m_vstack(it, xs):
    s = it.sequence(xs)
    n = _symlen(s.length())
    if isinstance(n, int):
        arrs = []
        for k in range(n):
            a = to_arr(it, s.get(k))
            if a.ndim == 1:
                a = array_getitem(it, a, SList([None, slice(None)], is_tuple=True))
            arrs.append(a)
        return m_concat(it, SList(arrs), axis=0)
    return list_to_arr(it, s)


@model(np.stack)
def m_stack(it, xs, axis=0):
    a = list_to_arr(it, it.sequence(xs))
    if axis == 0:
        return a
    f = a.frozen()
    if a.ndim == 2 and axis in (1, -1):
        return SArr((a.shape[1], a.shape[0]), lambda i, j: f.get(j, i), a.sort)
    raise Unsupported("stack axis")


@model(np.column_stack)
def m_column_stack(it, xs):
    s = it.sequence(xs)
    n = s.length()
    cols = []
    for k in range(n):
        a = to_arr(it, s.get(k))
        if a.ndim == 1:
            a = array_getitem(it, a, SList([slice(None), None], is_tuple=True))
        cols.append(a)
    return m_concat(it, SList(cols), axis=1)


@model(np.cov)
def m_cov(it, x, y=None, rowvar=True, ddof=None, **k):
    X = to_arr(it, x).frozen()
    if y is not None:
        X = list_to_arr(it, SList([x, y])).frozen()
    if X.ndim == 1:
        return _ret(reduce_(it, X, None, _var(1 if ddof is None else ddof)))
    if not rowvar:
        Y = X
        X = SArr((Y.shape[1], Y.shape[0]), lambda i, j: Y.get(j, i))
    n = const(X.shape[1])
    d = 1 if ddof is None else ddof

    def mean(i):
        return tm.div(tm.bigsum(n, lambda t: X.get(i, t)), n)

    def fn(i, j):
        mi, mj = mean(i), mean(j)
        return tm.div(tm.bigsum(n, lambda t: (X.get(i, t) - mi) * (X.get(j, t) - mj)), n - const(d))

    if it.m.branch(tm.eq(X.shape[0], 1)):
        return fn(const(0), const(0))  # a number, not a matrix
    return SArr((X.shape[0], X.shape[0]), fn)


@model(np.atleast_2d)
def m_atleast_2d(it, x):
    A = to_arr(it, x).frozen()
    if A.ndim == 0:
        return SArr((1, 1), lambda i, j: A.get(), A.sort)
    if A.ndim == 1:
        return SArr((1, A.shape[0]), lambda i, j: A.get(j), A.sort)
    return A


@model(np.corrcoef)
def m_corrcoef(it, x, y=None, rowvar=True):
    C = m_cov(it, x, y, rowvar)
    if not isinstance(C, SArr):
        return tm.div(tm.div(C, tm.sqrt(C)), tm.sqrt(C))
    sd = lambda i: tm.sqrt(C.get(i, i))
    return SArr(C.shape, lambda i, j: tm.div(tm.div(C.get(i, j), sd(i)), sd(j)))


# linear algebra: uninterpreted with defining equations ----------------------
def _content(it, kind, *arrays):
    """the same symbol for the same matrices (congruence): a new one is compared
    entry by entry with the earlier ones of the same kind"""
    ix = (tm.var("#row", "I"), tm.var("#col", "I"))
    key = (kind, *[A.get(*ix[: A.ndim]) for A in arrays], *[const(d) for A in arrays for d in A.shape])
    memo = it.__dict__.setdefault("linalg", {})
    if key in memo:
        return memo[key][0], False
    for (k, *_), (f, old) in list(memo.items()):
        if k == kind and all(A.ndim == B.ndim and all(const(x) is const(y) for x, y in zip(A.shape, B.shape)) for A, B in zip(arrays, old)):
            if all(it.m.prover.prove(it.m.facts, tm.forall_n(A.shape, lambda *i: tm.eq(A.get(*i), B.get(*i))), timeout_ms=2000, depth=9, quant=False) for A, B in zip(arrays, old)):
                memo[key] = memo[(k, *_)]
                return f, False
    memo[key] = (tm.fresh(kind, "R").args[0], arrays)
    return memo[key][0], True


@model(np.linalg.inv, np.linalg.pinv)
def m_inv(it, x, **k):
    A = to_arr(it, x).frozen()
    if A.ndim != 2:
        raise Unsupported("inverse of a stack")
    n = const(A.shape[0])
    f, new = _content(it, "inverse", A)
    B = SArr((A.shape[0], A.shape[0]), lambda i, j: tm.app(f, (i, j), "R"))
    if new:
        one = lambda i, j: tm.ite(tm.eq(i, j), 1, 0)
        it.m.assume(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(tm.bigsum(n, lambda k: A.get(i, k) * B.get(k, j)), one(i, j)))))
        it.m.assume(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(tm.bigsum(n, lambda k: B.get(i, k) * A.get(k, j)), one(i, j)))))
    return B


@model(np.unique)
def m_unique(it, x, axis=None, **k):
    """sorted distinct values: as many as elements exactly when these differ"""
    A = to_arr(it, x).frozen()
    if k or A.ndim != 1:
        raise Unsupported("unique")
    n = const(A.shape[0])
    m, f = it.m.fresh("n_unique", "I"), tm.fresh("unique", A.sort).args[0]
    it.m.assume(tm.and_(tm.le(0, m), tm.le(m, n), tm.or_(tm.le(n, 0), tm.le(1, m))))
    distinct = tm.forall(n, lambda i: tm.forall(n, lambda j: tm.or_(tm.eq(i, j), tm.not_(tm.eq(A.get(i), A.get(j))))))
    it.m.assume(tm.or_(tm.not_(tm.eq(m, n)), distinct))
    it.m.assume(tm.or_(tm.eq(m, n), tm.not_(distinct)))
    U = SArr((m,), lambda i: tm.app(f, (i,), A.sort), A.sort)
    it.m.assume(tm.forall(m, lambda i: tm.forall(m, lambda j: tm.or_(tm.le(j, i), tm.lt(U.get(i), U.get(j))))))
    it.m.assume(tm.forall(m, lambda i: tm.exists(n, lambda j: tm.eq(A.get(j), U.get(i)))))
    it.m.assume(tm.forall(n, lambda j: tm.exists(m, lambda i: tm.eq(A.get(j), U.get(i)))))
    return U


@model(np.linalg.solve)
def m_solve(it, a, b):
    A, B = to_arr(it, a).frozen(), to_arr(it, b).frozen()
    if A.ndim != 2 or B.ndim not in (1, 2):
        raise Unsupported("solve")
    n = const(A.shape[0])
    f, new = _content(it, "solution", A, B)
    if B.ndim == 1:
        if new:
            it.m.assume(tm.forall(n, lambda i: tm.eq(tm.bigsum(n, lambda k: A.get(i, k) * tm.app(f, (k,), "R")), B.get(i))))
        return SArr((A.shape[0],), lambda i: tm.app(f, (i,), "R"))
    if new:
        it.m.assume(tm.forall(n, lambda i: tm.forall(B.shape[1], lambda j: tm.eq(tm.bigsum(n, lambda k: A.get(i, k) * tm.app(f, (k, j), "R")), B.get(i, j)))))
    return SArr(B.shape, lambda i, j: tm.app(f, (i, j), "R"))


@model(np.linalg.cholesky)
def m_cholesky(it, x, **k):
    A = to_arr(it, x).frozen()
    n = const(A.shape[0])
    f, new = _content(it, "cholesky", A)
    if new:
        it.m.assume(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(tm.bigsum(n, lambda k: tm.app(f, (i, k), "R") * tm.app(f, (j, k), "R")), A.get(i, j)))))
    return SArr(A.shape, lambda i, j: tm.app(f, (i, j), "R"))


@model(np.linalg.eigvals, np.linalg.eigvalsh)
def m_eigvals(it, x):
    A = to_arr(it, x).frozen()
    n = const(A.shape[0])
    f, new = _content(it, "eigenvalue", A)
    if new:
        it.m.assume(tm.eq(tm.bigsum(n, lambda i: tm.app(f, (i,), "R")), tm.bigsum(n, lambda i: A.get(i, i))))
    return SArr((A.shape[0],), lambda i: tm.app(f, (i,), "R"))


@model(np.linalg.eigh)
def m_eigh(it, x, **k):
    A = to_arr(it, x).frozen()
    vals = m_eigvals(it, A)
    f, _ = _content(it, "eigenvector", A)
    return SList([vals, SArr(A.shape, lambda i, j: tm.app(f, (i, j), "R"))], is_tuple=True)


def nonzero1(it, c):
    C = to_arr(it, c).frozen()
    n = C.shape[0]
    mask = lambda i: _b(C.get(i))
    if isinstance(n, int):
        keep = [k for k in range(n) if it.m.branch(mask(const(k)))]
        return from_numpy(np.array(keep, dtype=int))
    s = selection(it, n, mask)
    r = SArr((s.count,), lambda j: s.sel(j), "I")
    r.nonneg = True
    return r


@model(np.nonzero)
def m_nonzero(it, c):
    C = to_arr(it, c)
    if C.ndim == 1:
        return SList([nonzero1(it, c)], is_tuple=True)
    raise Unsupported("nonzero nd")


@model(np.flatnonzero)
def m_flatnonzero(it, c):
    return nonzero1(it, c)


@model(np.argwhere)
def m_argwhere(it, c):
    C = to_arr(it, c)
    if C.ndim == 1:
        r = nonzero1(it, c)
        return SArr((r.shape[0], 1), lambda i, j: r.get(i), "I")
    C = C.frozen()
    if all(isinstance(d, int) for d in C.shape):
        keep = [ix for ix in np.ndindex(*C.shape) if it.m.branch(_b(C.get(*ix)))]
        return from_numpy(np.array(keep, dtype=int).reshape(-1, C.ndim))
    return points(it, C.shape, lambda *i: _b(C.get(*i)))


def points(it, shape, mask):
    """rows of argwhere: an enumeration, in some order, of the indices where mask
    holds (row-major order is not modelled)"""
    shape = [const(d) for d in shape]
    vs = [tm.fresh("m", "I") for _ in shape]
    name, deps = ghost("pts", tm.mkbind("lam", tuple(shape), tm.abstract(mask(*vs), [v.args[0] for v in vs]), (), "B"))
    count = tm.app(name + "n", deps, "I")
    cols = [lambda j, k=k: tm.app(f"{name}c{k}", [*deps, j], "I") for k in range(len(shape))]
    it.m.facts.append(tm.le(0, count))
    it.m.facts.append(tm.forall(count, lambda j: tm.and_(mask(*[c(j) for c in cols]), *[tm.and_(tm.le(0, c(j)), tm.lt(c(j), d)) for c, d in zip(cols, shape)])))
    tm.ENUMS[count] = (cols, shape, mask)

    def fn(j, k):
        v = tm.numval(k)
        if v is not None:
            return cols[int(v)](j)
        r = cols[-1](j)
        for q in range(len(cols) - 2, -1, -1):
            r = tm.ite(tm.eq(k, q), cols[q](j), r)
        return r

    r = SArr((count, len(shape)), fn, "I")
    r.nonneg = True
    return r


@model(np.issubdtype)
def m_issubdtype(it, a, b):
    return np.issubdtype(a, b)


@model(np.setdiff1d)
def m_setdiff1d(it, a, b, **k):
    if not is_sym(a) and not is_sym(b):
        return abstractize(np.setdiff1d(concretize(a), concretize(b)))
    raise Unsupported("setdiff1d")


@model(np.linalg.norm)
def m_norm(it, x, ord=None, axis=None):
    A = to_arr(it, x)
    if A.ndim == 1 and ord in (None, 2):
        return simp(tm.sqrt(tm.bigsum(A.shape[0], lambda i: tm.power(A.get(i), 2))))
    raise Unsupported("norm")


def _fill_method(it, a, v):
    it.note_write(a.root())
    _store(it, a, lambda *i: const(v), "R")


ARR_METHODS = dict(
    sum=lambda it, a, axis=None, **k: m_sum(it, a, axis, **k),
    mean=lambda it, a, axis=None, **k: m_mean(it, a, axis, **k),
    std=lambda it, a, axis=None, ddof=0, **k: m_std(it, a, axis, ddof),
    var=lambda it, a, axis=None, ddof=0, **k: m_var(it, a, axis, ddof),
    max=lambda it, a, axis=None, **k: m_npmax(it, a, axis),
    min=lambda it, a, axis=None, **k: m_npmin(it, a, axis),
    any=lambda it, a, axis=None, **k: m_npany(it, a, axis),
    all=lambda it, a, axis=None, **k: m_npall(it, a, axis),
    prod=lambda it, a, axis=None, **k: m_prod(it, a, axis),
    cumsum=lambda it, a, axis=None, **k: m_cumsum(it, a, axis),
    argmax=lambda it, a, axis=None: m_argmax(it, a, axis),
    argmin=lambda it, a, axis=None: m_argmin(it, a, axis),
    argsort=lambda it, a, axis=-1: m_argsort(it, a, axis),
    copy=copy_arr,
    astype=astype,
    reshape=m_reshape,
    ravel=m_ravel,
    flatten=lambda it, a: m_ravel(it, copy_arr(it, a)),
    squeeze=m_squeeze,
    tolist=lambda it, a: m_list(it, a),
    dot=lambda it, a, b: m_dot(it, a, b),
    transpose=lambda it, a: array_attr(it, a, "T"),
    diagonal=lambda it, a: m_diag(it, a),
    nonzero=lambda it, a: m_nonzero(it, a),
    fill=_fill_method,
    item=lambda it, a: simp(a.get(*[0] * a.ndim)),
    clip=lambda it, a, lo=None, hi=None, **k: m_clip(it, a, lo, hi),
    trace=lambda it, a: m_trace(it, a),
)


def _seq(it, x):
    if isinstance(x, SArr):
        return [x.get(k) for k in range(x.shape[0])] if x.ndim == 1 else None
    if isinstance(x, SList) and x.concrete:
        return list(x.items)
    return list(x)


def _itertools(f):
    def go(it, *a, **k):
        its = [x if isinstance(x, (int, bool)) else _seq(it, x) for x in a]
        return SList([SList([simp(y) for y in r], is_tuple=True) for r in f(*its, **k)])

    return go


for _f in (itertools.combinations, itertools.permutations, itertools.product, itertools.combinations_with_replacement):
    MODELS[_f] = _itertools(_f)
