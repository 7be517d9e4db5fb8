"""Assumed contracts of cvxpy.

A cvxpy expression stands for its value at one arbitrary point: every variable
is an arbitrary array of reals, a constraint is the proposition that it holds
at that point.  Solving a problem is assumed to return a point at which every
constraint holds (exactly); which feasible point is left open, so whatever is
proved of the weights holds for every feasible point, the optimum included.
Semidefinite and exponential-cone constraints are kept as opaque facts.
"""

from __future__ import annotations

import cvxpy as cp
import numpy as np
import scipy.linalg as scl

from . import npmodel
from . import terms as tm
from .npmodel import MODELS, model
from .terms import T, const
from .values import Opaque, SArr, SDict, SList, SObj, Unsupported


def raw(x):
    return x.val if isinstance(x, CE) else x


def scalar(v):
    return not isinstance(v, (SArr, SList, np.ndarray)) or (isinstance(v, SArr) and v.ndim == 0)


class CE:
    """cvxpy expression: its value at an arbitrary point"""

    def __init__(self, val, kind="expr", affine=True, constant=False, name=None):
        self.val, self.kind, self.affine, self.constant, self.name = val, kind, affine, constant, name

    @property
    def pyvc_type(self):
        return {"var": cp.Variable, "const": cp.Constant, "param": cp.Parameter}.get(self.kind, cp.Expression)

    def _bin(self, it, op, x, y):
        a, b = raw(x), raw(y)
        ca, cb = not isinstance(x, CE) or x.constant, not isinstance(y, CE) or y.constant
        aa, ab = not isinstance(x, CE) or x.affine, not isinstance(y, CE) or y.affine
        if op in ("Add", "Sub"):
            aff = aa and ab
        elif op in ("Mult", "MatMult"):
            aff = (ca and ab) or (cb and aa)
            if op == "Mult" and not scalar(a) and not scalar(b):
                op = "MatMult"  # cvxpy: * of two arrays is the matrix product
        elif op == "Div":
            aff = cb and aa
        else:
            aff = ca and cb
        return CE(it.binop(op, a, b), affine=aff, constant=ca and cb)

    def pyvc_binop(self, it, op, y):
        if op == "RShift":
            return Constraint(tm.TRUE, opaque="psd")
        return self._bin(it, op, self, y)

    def pyvc_rbinop(self, it, op, y):
        return self._bin(it, op, y, self)

    def pyvc_unop(self, it, op):
        return CE(it.unop(op, self.val), affine=self.affine, constant=self.constant)

    def pyvc_compare(self, it, op, y):
        if op in ("NotEq", "Is", "IsNot"):
            raise Unsupported(f"cvxpy {op}")
        c = it.compare(op, self.val, raw(y))
        if isinstance(c, SArr):
            from .contract import forall_n

            f = c.frozen()
            c = forall_n(f.shape, f.get)
        return Constraint(const(c))

    def pyvc_getitem(self, it, ix):
        return CE(it.getitem(self.val, ix), affine=self.affine, constant=self.constant)

    def pyvc_len(self, it):
        return npmodel.m_len(it, self.val)

    def pyvc_getattr(self, it, name):
        if name == "value":
            return self.val
        if name == "T":
            return CE(it.getattr(self.val, "T"), affine=self.affine, constant=self.constant)
        if name in ("shape", "size", "ndim"):
            if scalar(self.val):
                return {"shape": SList([], is_tuple=True), "size": 1, "ndim": 0}[name]
            return it.getattr(self.val, name)
        if name == "is_affine":
            return npmodel._Meth(lambda it_: self.affine)
        if name == "is_constant":
            return npmodel._Meth(lambda it_: self.constant)
        raise Unsupported(f"cvxpy expression.{name}")

    def pyvc_setattr(self, it, name, v):
        if name == "value" and self.kind == "param":
            it.m.assume(tm.eq(const(self.val), const(v)))
            return
        raise Unsupported(f"set cvxpy {self.kind}.{name}")


class Constraint:
    pyvc_type = cp.constraints.constraint.Constraint

    def __init__(self, t, opaque=None):
        self.t, self.opaque = t, opaque


class Objective:
    def __init__(self, sense, e):
        self.sense, self.e = sense, e


class Problem:
    pyvc_type = cp.Problem

    def __init__(self, it, objective, constraints):
        self.objective = objective
        self.constraints = [c for c in it.iter_list(constraints)]
        for c in self.constraints:
            if not isinstance(c, Constraint):
                raise Unsupported(f"constraint {c!r}")
        it.cvx_problems = [*getattr(it, "cvx_problems", []), self]
        self.domain = list(getattr(it, "cvx_domain", []))

    def pyvc_getattr(self, it, name):
        if name == "solve":
            return npmodel._Meth(self.solve)
        if name == "status":
            return cp.OPTIMAL
        if name == "value":
            return self.objective.e.val
        if name == "parameters":
            return npmodel._Meth(lambda it_: SList([]))
        raise Unsupported(f"cvxpy problem.{name}")

    def solve(self, it, *a, **k):
        if getattr(self, "solved", False):
            raise Unsupported("problem solved more than once")
        self.solved = True
        for d in self.domain:
            it.m.assume(d)
        for c in self.constraints:
            it.m.assume(c.t)
        return self.objective.e.val


def m_variable(it, shape=(), nonneg=False, boolean=False, symmetric=False, name=None, integer=False, **kw):
    if kw:
        raise Unsupported(f"cp.Variable({list(kw)})")
    if isinstance(shape, SList):
        shape = tuple(shape.items)
    elif not isinstance(shape, tuple):
        shape = (shape,)
    k = it.cvx_n = getattr(it, "cvx_n", 0) + 1
    if not shape:
        v = it.m.fresh("cvx", "R")
        dom = [v]
        wrap = lambda f: f(v)
    else:
        f0 = it.m.fresh_fn("cvx", "R")
        if symmetric:
            val = SArr(shape, lambda i, j: f0(tm.tmin(const(i), const(j)), tm.tmax(const(i), const(j))) if hasattr(tm, "tmin") else f0(i, j))
        else:
            val = SArr(shape, lambda *i: f0(*i))
        from .contract import forall_n

        wrap = lambda g: forall_n(shape, lambda *i: g(val.get(*i)))
    if not hasattr(it, "cvx_domain"):
        it.cvx_domain = []
    if nonneg:
        it.cvx_domain.append(wrap(lambda x: tm.le(0, x)))
    if boolean:
        it.cvx_domain.append(wrap(lambda x: tm.or_(tm.eq(x, 0), tm.eq(x, 1))))
    return CE(v if not shape else val, "var")


MODELS[cp.Variable] = m_variable
MODELS[cp.Parameter] = lambda it, **k: CE(it.m.fresh("par", "R"), "param", constant=True)
MODELS[cp.Constant] = lambda it, v: v if isinstance(v, CE) else CE(v, "const", constant=True)
MODELS[cp.Minimize] = lambda it, e: Objective("min", e if isinstance(e, CE) else CE(e, constant=True))
MODELS[cp.Maximize] = lambda it, e: Objective("max", e if isinstance(e, CE) else CE(e, constant=True))
MODELS[cp.Problem] = lambda it, o, c=(): Problem(it, o, c)


def _sum(it, v):
    if scalar(v):
        return v
    return it.call(it.getattr(v, "sum"), [])


def m_sum(it, x):
    v = raw(x)
    return CE(_sum(it, v), affine=x.affine if isinstance(x, CE) else True, constant=not isinstance(x, CE) or x.constant)


MODELS[cp.sum] = m_sum


def _ew(g):
    def f(it, x):
        v = raw(x)
        c = not isinstance(x, CE) or x.constant
        if isinstance(v, (SArr, SList)):
            return CE(npmodel.elementwise(it, lambda t: g(npmodel.num_of(t)), v), affine=c, constant=c)
        return CE(npmodel.simp(g(npmodel.num_of(const(v)))), affine=c, constant=c)

    return f


MODELS[cp.abs] = _ew(tm.absval)
MODELS[cp.pos] = _ew(tm.pos)
MODELS[cp.neg] = _ew(lambda t: tm.pos(-t))
MODELS[cp.square] = _ew(lambda t: t * t)


def m_csqrt(it, x):
    v = raw(x)
    c = not isinstance(x, CE) or x.constant
    return CE(it.call(np.sqrt, [v]), affine=c, constant=c)


MODELS[cp.sqrt] = m_csqrt


def _at_all(v, f):
    """f at every entry"""
    if not isinstance(v, SArr):
        return f(const(v))

    def go(k, idx):
        if k == len(v.shape):
            return f(v.get(*idx))
        return tm.forall(v.shape[k], lambda i: go(k + 1, idx + (i,)))

    return go(0, ())


def m_clog(it, x):
    v = raw(x)
    it.cvx_domain.append(_at_all(v, lambda e: tm.lt(0, e)))
    return CE(it.call(np.log, [v]), affine=False)


MODELS[cp.log] = m_clog


def _sq(it, x):
    v = raw(x)
    return _sum(it, it.binop("Mult", v, v))


MODELS[cp.sum_squares] = lambda it, x: CE(_sq(it, x), affine=False)


def m_norm(it, x, p=2, axis=None):
    if axis is not None:
        raise Unsupported("norm axis")
    c = not isinstance(x, CE) or x.constant
    p = npmodel.concretize(p) if isinstance(p, T) else p
    if p == 1:
        return CE(_sum(it, MODELS[cp.abs](it, x).val), affine=c, constant=c)
    if p in (2, "fro"):
        return CE(it.call(np.sqrt, [_sq(it, x)]), affine=c, constant=c)
    if p == np.inf:
        m = tm.fresh("cvxmax", "R")
        it.m.assume(_at_all(raw(x), lambda e: tm.le(tm.absval(e), m)))
        return CE(m, affine=c, constant=c)
    raise Unsupported(f"norm {p}")


for _f in (cp.norm, cp.pnorm):
    MODELS[_f] = m_norm
MODELS[cp.norm1] = lambda it, x: m_norm(it, x, 1)
MODELS[cp.norm2] = lambda it, x: m_norm(it, x, 2)


def m_multiply(it, x, y):
    cx_, cy = not isinstance(x, CE) or x.constant, not isinstance(y, CE) or y.constant
    ax, ay = not isinstance(x, CE) or x.affine, not isinstance(y, CE) or y.affine
    return CE(it.binop("Mult", raw(x), raw(y)), affine=(cx_ and ay) or (cy and ax), constant=cx_ and cy)


MODELS[cp.multiply] = m_multiply


def m_soc(it, t, x, *a):
    s = raw(t)
    return Constraint(tm.and_(tm.le(0, const(s)), tm.le(const(_sq(it, x)), const(s) * const(s))))


MODELS[cp.SOC] = m_soc
MODELS[cp.constraints.ExpCone] = lambda it, *a: Constraint(tm.TRUE, opaque="exp cone")


def _opaque_expr(it, *a, **k):
    return CE(it.m.fresh("opaque", "R"), affine=False)


def _shaped(it, shape):
    f = it.m.fresh_fn("opq", "R")
    return CE(SArr(shape, lambda *i: f(*i)))


def m_reshape(it, x, shape, order="F"):
    v = raw(x)
    shape = tuple(shape.items) if isinstance(shape, SList) else shape
    if isinstance(v, SArr) and v.ndim == 2 and len(shape) == 1 and v.shape[1] == 1:
        return CE(SArr(shape, lambda i: v.get(i, 0)), affine=x.affine, constant=x.constant)
    if isinstance(v, SArr) and v.ndim == 1 and len(shape) == 2 and shape[1] == 1:
        return CE(SArr(shape, lambda i, j: v.get(i)), affine=x.affine, constant=x.constant)
    return _shaped(it, shape)


MODELS[cp.reshape] = m_reshape


class _Matrix(CE):
    """expression of which nothing is known"""

    def __init__(self):
        super().__init__(Opaque("cvxpy matrix"), affine=True)

    def _bin(self, it, op, x, y):
        return _Matrix()

    def pyvc_binop(self, it, op, y):
        return Constraint(tm.TRUE, opaque="psd") if op == "RShift" else _Matrix()

    def pyvc_rbinop(self, it, op, y):
        return _Matrix()

    def pyvc_getattr(self, it, name):
        return _Matrix()


for _f in (cp.vstack, cp.hstack, cp.vec):
    MODELS[_f] = lambda it, *a, **k: _Matrix()
MODELS[cp.trace] = _opaque_expr
