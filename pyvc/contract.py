"""Contracts: one specification script, three readings.

A contract is a Python function ``c(cx)`` that declares inputs, states
preconditions (``cx.requires``), calls the code under contract (``cx.call``,
``cx.generate`` ...) and states postconditions (``cx.ensures``).

* SYM: inputs are symbolic, sizes included; the code is executed by the symbolic
  interpreter on the real source; every ``ensures`` becomes a proof obligation.
* BND: sizes are small concrete numbers, everything else symbolic, loops
  unrolled; obligations are exact and z3 gives counterexamples.
* RUN: inputs are concrete, the real function runs under CPython and the
  ``ensures`` terms are evaluated.
"""

from __future__ import annotations

import json
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import solver
from . import cvxmodel, pdmodel, skmodel
from . import terms as tm
from .interp import Interp, Machine, Observed
from .solver import Prover
from .terms import T, const
from .values import (
    JOURNAL,
    BoundMethod,
    Infeasible,
    PyRaise,
    SArr,
    SDict,
    SList,
    SObj,
    SSet,
    Unsupported,
    abstractize,
    concretize,
    from_numpy,
)


class Discard(Exception):
    """concrete input does not satisfy the precondition"""


class Failed(Exception):
    def __init__(self, name, detail=""):
        self.name = name
        self.detail = detail


CONTRACTS: dict = {}


class Contract:
    def __init__(self, prop, name, fn, target, **opts):
        self.prop, self.name, self.fn, self.target, self.opts = prop, name, fn, target, opts


def contract(prop, name, target, **opts):
    """target: list of dotted names of the functions put under contract"""

    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(
            Contract(prop, name, fn, [target] if isinstance(target, str) else list(target), **opts)
        )
        return fn

    return deco


# --------------------------------------------------------------------------
def to_real(v):
    """interpreter value -> real Python object (RUN mode)"""
    if isinstance(v, T):
        n = tm.numval(v)
        if n is not None:
            return int(n) if n.denominator == 1 else float(n)
        if v is tm.TRUE:
            return True
        if v is tm.FALSE:
            return False
        return tm.evaluate(v)
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, SArr):
        dt = {"R": float, "I": int, "B": bool}.get(v.sort, object)
        out = np.empty(v.shape, dtype=dt)
        for ix in np.ndindex(*v.shape):
            out[ix] = to_real(v.get(*ix))
        return out
    if isinstance(v, SList):
        its = [to_real(x) for x in v.items]
        return tuple(its) if v.is_tuple else its
    if isinstance(v, SDict):
        return {k: to_real(x) for k, x in v.d.items()}
    if type(v) is list:
        return [to_real(x) for x in v]
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(to_real(x) for x in v)
    if isinstance(v, dict):
        return {k: to_real(x) for k, x in v.items()}
    return v


def lift(v):
    """plain Python containers of interpreter values -> interpreter value"""
    if isinstance(v, list):
        return SList([lift(x) for x in v])
    if isinstance(v, tuple) and type(v) is tuple:
        return SList([lift(x) for x in v], is_tuple=True)
    if isinstance(v, dict) and type(v) is dict:
        return SDict({k: lift(x) for k, x in v.items()})
    if isinstance(v, (T, SArr, SList, SDict, SObj)):
        return v
    return abstractize(v)


class Cx:
    """context handed to a contract script"""

    def __init__(self, mode, runner):
        self.mode = mode
        self.r = runner
        self.run = mode == "RUN"
        self.sym = mode == "SYM"
        self.it = None
        self.inputs = {}

    # ----------------------------------------------------------- inputs
    def _src(self, name):
        return self.r.given.get(name) if self.r.given is not None else None

    def dim(self, name, lo=1, bnd=(1, 2, 3), run=(1, 8)):
        if self.run:
            g = self._src(name)
            v = int(g) if g is not None else self.r.rng.randint(max(lo, run[0]), run[1])
            self.inputs[name] = v
            return v
        if self.mode == "BND":
            v = bnd[self.it.m.choose(len(bnd))]
            if v < lo:
                raise Infeasible()
            self.inputs[name] = v
            return v
        v = tm.var(name, "I")
        self.it.m.assume(tm.le(lo, v))
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, run=(0, 8)):
        if self.run:
            g = self._src(name)
            if g is not None:
                v = int(g)
            else:
                v = self.r.rng.randint(run[0] if lo is None or isinstance(lo, T) else max(int(lo), run[0]), run[1])
            self.inputs[name] = v
            if lo is not None:
                self.requires(tm.le(lo, v))
            if hi is not None:
                self.requires(tm.le(v, hi))
            return v
        v = tm.var(name, "I")
        if lo is not None:
            self.it.m.assume(tm.le(lo, v))
        if hi is not None:
            self.it.m.assume(tm.le(v, hi))
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=False, run=(-1.0, 1.0), grid=None):
        if self.run:
            g = self._src(name)
            if g is not None:
                v = Fraction(repr(float(g)))
            elif grid is not None:
                v = Fraction(repr(float(self.r.rng.choice(grid))))
            else:
                a = run[0] if lo is None else max(run[0], float(lo))
                b = run[1] if hi is None else min(run[1], float(hi))
                v = Fraction(repr(round(self.r.rng.uniform(a, b), 6)))
            self.inputs[name] = float(v)
            c = const(v)
        else:
            v = c = tm.var(name, "R")
            self.inputs[name] = v
        f = tm.lt if strict else tm.le
        if lo is not None:
            self.requires(f(lo, c))
        if hi is not None:
            self.requires(f(c, hi))
        return v

    def bool(self, name):
        """boolean parameter, both values explored"""
        return self.choice(name, [False, True])

    def choice(self, name, options):
        if self.run:
            g = self._src(name)
            i = int(g) if g is not None else self.r.rng.randrange(len(options))
        else:
            i = self.it.m.choose(len(options))
        self.inputs[name] = i
        return options[i]

    def names(self, name, shape, pools):
        """array of names; concrete runs draw row k from pools[k] (or pools)"""
        if not self.run:
            return self.array(name, shape, "U")
        shp = tuple(int(tm.numval(const(d))) for d in shape)
        g = self._src(name)
        if g is None:
            pool = (lambda k: pools) if isinstance(pools[0], str) else (lambda k: pools[k])
            g = [[self.r.rng.choice(pool(k)) for _ in range(shp[-1])] for k in range(shp[0])] if len(shp) == 2 else [self.r.rng.choice(pools) for _ in range(shp[0])]
        a = np.array(g, dtype=str).reshape(shp)
        self.inputs[name] = a.tolist()
        out = from_numpy(a)
        out.origin, out.real = name, a.copy()
        return out

    def array(self, name, shape, sort="R", lo=None, hi=None, strict=False, run=None, ints=None, nan=False, distinct=False):
        """input array (its contents may not be modified unless the contract says
        so)"""
        if self.run:
            g = self._src(name)
            shp = tuple(int(tm.numval(const(d))) for d in shape)
            if g is not None:
                a = np.array(g, dtype={"R": float, "I": int, "B": bool}[sort]).reshape(shp)
            elif sort == "R":
                r = run or (-0.1, 0.1)
                a = np.round(self.r.np.uniform(r[0], r[1], shp), 4)
                if self.r.rng.random() < 0.35 and not distinct:
                    a = np.round(a, 1 if max(abs(r[0]), abs(r[1])) > 0.5 else 2)
                if lo is not None and not isinstance(lo, T):
                    a = np.maximum(a, float(lo) + (1e-3 if strict else 0))
                if hi is not None and not isinstance(hi, T):
                    a = np.minimum(a, float(hi) - (1e-3 if strict else 0))
            elif sort == "I":
                r = run or (0, 5)
                a = self.r.np.integers(r[0], r[1] + 1, shp)
            else:
                a = self.r.np.random(shp) < 0.5
            self.inputs[name] = a.tolist()
            out = from_numpy(a)
            out.origin = name
            out.real = a.copy()
            if nan:
                mk = self.r.np.random(shp) < 0.2 if self._src(name + "#nan") is None else np.array(self._src(name + "#nan"), dtype=bool).reshape(shp)
                self.inputs[name + "#nan"] = mk.tolist()
                out.real[mk] = np.nan
                mka = from_numpy(mk)
                out.nan = lambda *i: mka.get(*i)
            return out
        out = SArr(shape, lambda *i: tm.app(name, i, sort), sort, origin=name)
        if nan:
            out.nan = lambda *i: tm.app(name + "#nan", i, "B")
        self.inputs[name] = out
        f = tm.lt if strict else tm.le
        if lo is not None or hi is not None:

            def body(*i):
                x = out.get(*i)
                c = []
                if lo is not None:
                    c.append(f(lo, x))
                if hi is not None:
                    c.append(f(x, hi))
                return tm.and_(*c)

            self.it.m.assume(forall_n(out.shape, body))
        return out

    def symmetric(self, name, n, **k):
        """symmetric matrix input"""
        a = self.array(name, (n, n), **k)
        if self.run:
            if self._src(name) is None:
                r = a.real
                r = (r + r.T) / 2
                self.inputs[name] = r.tolist()
                b = from_numpy(r)
                b.origin, b.real = name, r.copy()
                return b
            return a

        def fn(i, j):
            # canonical orientation through an uninterpreted symmetric function
            x, y = (i, j) if i.id <= j.id else (j, i)
            return tm.app(name, [x, y], "R")

        self.it.m.assume(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(tm.app(name, [i, j], "R"), tm.app(name, [j, i], "R")))))
        return a

    # ------------------------------------------------------------ spec
    def requires(self, *cs):
        for c in cs:
            c = const(c)
            if self.run:
                if not tm.evaluate(c):
                    raise Discard()
            else:
                self.it.m.assume(c)

    def ensures(self, name, cond, hints=(), tol=1e-6, use=None):
        """postcondition; `use` restricts the facts handed to the prover"""
        cond = const(cond() if callable(cond) else cond)
        if self.run:
            self.r.hit(name)
            try:
                ok = tm.evaluate(cond, tol=tol)
            except (OverflowError, ValueError, ZeroDivisionError):
                return
            except KeyError as e:
                if e.args != ("not-finite",):
                    raise
                ok = False
            if not ok:
                raise Failed(name, tm.show(cond)[:400])
            return
        self.r.obligation(self, name, cond, hints() if callable(hints) else hints, use)

    def lemma(self, name, cond, hints=()):
        """proved, then available to later obligations"""
        self.ensures(name, cond, hints)
        if not self.run:
            self.it.m.assume(const(cond))

    def fact(self, cond):
        """assumption recorded in the evidence (trusted)"""
        if not self.run:
            self.it.m.assume(const(cond))

    def define(self, name, n, f):
        """ghost sequence with the given values, kept folded in the obligations"""
        if self.run:
            return f
        g = tm.fresh(name, "R").args[0]
        self.it.m.assume(tm.forall(n, lambda i: tm.eq(tm.app(g, (i,), "R"), f(i))))
        return lambda i: tm.app(g, (i,), "R")

    def unmodified(self, *arrs, name="frame"):
        """frame condition: the given input arrays are not written"""
        for a in arrs:
            if self.run:
                self.r.hit(name)
                b = getattr(a, "passed", None)
                if b is not None and not np.array_equal(b, a.real, equal_nan=a.real.dtype.kind == "f"):
                    raise Failed(name, f"input {a.origin} was modified")
            else:
                ev = [e for e in self.it.m.events if e[0] == "write" and e[1] == a.origin]
                cond = tm.and_(*[tm.not_(tm.and_(*e[2])) if e[2] else tm.FALSE for e in ev])
                self.r.obligation(self, name, cond, (), None)

    def total(self, name="returns normally"):
        """from here on an exception is a failure of the named obligation"""
        self.r.total = name

    # ------------------------------------------------------------ calls
    def arg(self, v):
        if self.run:
            if isinstance(v, SArr):
                real = getattr(v, "real", None)
                if real is not None:
                    p = real.copy()
                    v.passed = p
                    return p
                return to_real(v)
            if type(v) is list:
                return [self.arg(x) for x in v]
            if isinstance(v, tuple) and type(v) is tuple:
                return tuple(self.arg(x) for x in v)
            if isinstance(v, dict):
                return {k: self.arg(x) for k, x in v.items()}
            h = getattr(v, "pyvc_real", None)
            if h is not None:
                return h(self)
            return to_real(v)
        return lift(v)

    def back(self, v):
        if self.run:
            return back_real(v)
        return v

    def call(self, f, *a, **k):
        """call real code; exceptions propagate as PyRaise"""
        a = [self.arg(x) for x in a]
        k = {q: self.arg(x) for q, x in k.items()}
        if self.run:
            try:
                with np.errstate(all="ignore"):
                    return back_real(f(*a, **k))
            except (Discard, Failed):
                raise
            except Exception as e:
                raise PyRaise(e) from e
        return self.it.call(f, a, k)

    def attempt(self, f, *a, **k):
        """('ok', value) or ('raise', exception)"""
        try:
            return "ok", self.call(f, *a, **k)
        except PyRaise as e:
            return "raise", e.exc

    def new(self, cls, *a, **k):
        return self.call(cls, *a, **k)

    def raw(self, cls, **attrs):
        """instance with the given attributes, without running __init__"""
        if self.run:
            o = cls.__new__(cls)
            for q, v in attrs.items():
                object.__setattr__(o, q, self.arg(v))
            return o
        o = SObj(cls)
        for q, v in attrs.items():
            o.attrs[q] = lift(v)
        return o

    def method(self, o, name, *a, **k):
        if self.run:
            return self.call(getattr(o, name), *a, **k)
        return self.it.call(self.it.getattr(o, name), [self.arg(x) for x in a], {q: self.arg(x) for q, x in k.items()})

    def bound(self, o, name):
        return getattr(o, name) if self.run else self.it.getattr(o, name)

    def get(self, o, name):
        if self.run:
            try:
                return back_real(getattr(o, name))
            except Exception as e:
                raise PyRaise(e) from e
        return self.it.getattr(o, name)

    def set(self, o, name, v):
        if self.run:
            setattr(o, name, self.arg(v))
        else:
            self.it.setattr(o, name, self.arg(v))

    def generate(self, f, *a, on_item=None, on_end=None, **k):
        """run a generator function: on_item(index, value) for an arbitrary
        element, on_end(count) when it is exhausted"""
        if self.run:
            cnt = 0
            try:
                for v in f(*[self.arg(x) for x in a], **{q: self.arg(x) for q, x in k.items()}):
                    on_item(cnt, back_real(v))
                    cnt += 1
            except (Failed, Discard):
                raise
            except Exception as e:
                raise PyRaise(e) from e
            if on_end:
                on_end(cnt)
            return
        it = self.it
        g = SObj(object, {"yields": tm.ZERO})
        it.ghost = g
        observing = [True]

        def oy(v):
            on_item(g.attrs["yields"], v)
            it.count_yield()

        it.on_yield = oy
        try:
            try:
                it.call(f, [self.arg(x) for x in a], {q: self.arg(x) for q, x in k.items()})
            except Observed:
                return
        finally:
            it.on_yield = None
            it.ghost = None
        if on_end:
            on_end(g.attrs["yields"])

    def stub(self, f, handler):
        """modular call: callers of f are checked against this contract of f"""
        if not self.run:
            self.it.contracts[getattr(f, "__wrapped__", f)] = handler

    def arange(self, n):
        return from_numpy(np.arange(n)) if self.run else SArr((n,), lambda i: i, "I")

    # ------------------------------------------------------------ values
    def callee(self, f, model):
        """check callers of f against the given contract instead of its body"""
        if not self.run:
            self.it.contracts[f] = model

    def seq(self, v):
        """items of a returned tuple or list"""
        return list(getattr(v, "items", v)) if not isinstance(v, (tuple, list)) else list(v)

    def num(self, v):
        if isinstance(v, float) and not np.isfinite(v):
            return tm.var("not-finite", "R")
        return tm.ind(const(v)) if const(v).sort == "B" else const(v)

    def arr(self, v):
        """result as SArr"""
        from .npmodel import to_arr

        if self.run and isinstance(v, (list, tuple, np.ndarray)):
            v = from_numpy(np.asarray(v))
        return to_arr(self.it, v)

    def shape(self, v):
        return self.arr(v).shape

    def items(self, v):
        """list of the elements of a concrete-length list/tuple"""
        if isinstance(v, SObj):
            v = self.it.list_of(v)
        if isinstance(v, SList):
            return list(v.items)
        return list(v)


def back_real(v):
    """real result -> interpreter value (arrays and numbers only)"""
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "bif":
            if v.dtype.kind == "f" and not np.isfinite(v).all():
                a = np.where(np.isfinite(v), v, 0.0)
                r = from_numpy(a)
                nn = from_numpy(~np.isfinite(v))
                r.nan = lambda *i: nn.get(*i)
                return r
            return from_numpy(v)
        return v
    if isinstance(v, (bool, int, float, np.generic)):
        return abstractize(v)
    if type(v) in (list, tuple, dict):
        if isinstance(v, dict):
            return SDict({k: back_real(x) for k, x in v.items()})
        return SList([back_real(x) for x in v], is_tuple=isinstance(v, tuple))
    return v


def forall_n(shape, f):
    def rec(pre, k):
        if k == len(shape):
            return f(*pre)
        return tm.forall(shape[k], lambda i: rec(pre + (i,), k + 1))

    return rec((), 0)


# --------------------------------------------------------------------------
class Runner:
    """runs one contract in one mode"""

    def __init__(self, c, mode, prover=None, rng=None, given=None, budget=120.0):
        self.c = c
        self.mode = mode
        self.prover = prover or Prover()
        self.rng = rng or random.Random(1)
        self.np = np.random.default_rng(self.rng.randrange(2**31))
        self.given = given
        self.hits = {}
        self.obl = {}  # name -> list of dict
        self.paths = 0
        self.raises = []
        self.deadline = time.time() + budget
        self.it = None
        self.total = None

    def hit(self, name):
        self.hits[name] = self.hits.get(name, 0) + 1

    def obligation(self, cx, name, cond, hints, use, note=""):
        self.hit(name)
        t0 = time.time()
        facts = list(cx.it.m.facts)
        key = None
        res = self.prover.prove(facts, cond, hints=list(hints))
        rec = dict(status=res.status, how=res.how, time=time.time() - t0, goal=tm.show(cond)[:600], facts=len(facts))
        if res.status != "proved":
            # an infeasible path discharges everything
            if not self.prover.consistent(facts, 3000):
                rec["status"], rec["how"] = "proved", "infeasible path"
            else:
                rec["detail"] = (note + " " + res.detail)[:600]
                rec["inputs"] = None
                if res.model is not None and self.mode == "BND":
                    rec["inputs"] = extract_inputs(cx, res.model)
        self.obl.setdefault(name, []).append(rec)
        if time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def sym(self):
        """SYM or BND"""
        m = Machine(self.prover)
        it = Interp(m, self.c.opts.get("models"), dict(self.c.opts.get("assumes", {})))
        self.it = it
        it.unroll_while = self.mode == "BND" or self.c.opts.get("unroll", False)
        cx = Cx(self.mode, self)
        cx.it = it

        def thunk():
            cx.inputs = {}
            m.events = []
            it.on_yield = None
            it.collector = None
            it.in_gen = False
            it.ghost = None
            it.depth = 0
            m.loop_ctx = []
            it.cvx_domain, it.cvx_problems = [], []
            JOURNAL.touched.clear()
            if time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            self.total = None
            try:
                v = self.c.fn(cx)
            except PyRaise as e:
                if self.total is not None:
                    self.obligation(cx, self.total, tm.FALSE, (), None, note=repr(e))
                raise
            if self.total is not None:
                self.obl.setdefault(self.total, []).append(dict(status="proved", how="no exception on path", time=0.0, goal="", facts=0))
            return v

        ps = m.explore(thunk, reset_fresh=True)
        self.paths = len(ps)
        for p in ps:
            if p.kind == "raise":
                self.raises.append(p)
        return ps

    def run_once(self):
        cx = Cx("RUN", self)
        np.random.seed(0)
        random.seed(0)
        cx.it = Interp(Machine(self.prover))
        self.total = None
        tm.FUZZ = self.c.opts.get("tol", 1e-7)
        try:
            self.c.fn(cx)
            if self.total is not None:
                self.hit(self.total)
            return "ok", cx.inputs, None
        except Discard:
            return "discard", cx.inputs, None
        except Infeasible:
            return "discard", cx.inputs, None
        except Failed as e:
            return "fail", cx.inputs, e
        except PyRaise as e:
            if self.total is not None:
                return "fail", cx.inputs, Failed(self.total, f"raised {type(e.exc).__name__}: {e.exc}")
            return "raise", cx.inputs, e
        except Exception as e:
            if "converge" in str(e):  # a numerical routine of a dependency gave up: nothing to check
                return "discard", cx.inputs, None
            if self.c.opts.get("sym", True) or not _raised_by_api(e):
                raise
            return "fail", cx.inputs, Failed("returns normally", f"raised {type(e).__name__}: {e}")
        finally:
            tm.FUZZ = False


def _raised_by_api(e):
    """an exception that came out of a public skfolio function called by the contract (solver failures aside)"""
    if "Solver" in type(e).__name__ or "olver" in str(e) or isinstance(e, (MemoryError, RecursionError)):
        return False
    frames = traceback.extract_tb(e.__traceback__)
    at = max((i for i, f in enumerate(frames) if "/contracts/" in f.filename), default=-1)
    called = [f for f in frames[at + 1 :] if "/skfolio/" in f.filename]
    return bool(called) and (not called[0].name.startswith("_") or called[0].name in ("__init__", "__call__"))


def extract_inputs(cx, model):
    """concrete inputs from a z3 model (BND mode)"""
    import z3

    m, ex = model
    out = {}

    def val(t):
        try:
            e = m.eval(ex.term(t), model_completion=True)
        except Exception:
            return None
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_algebraic_value(e):
            return float(e.approx(20).as_fraction())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None

    for name, v in cx.inputs.items():
        if isinstance(v, SArr):
            if not all(isinstance(d, int) for d in v.shape):
                return None
            a = np.zeros(v.shape).tolist() if v.sort == "R" else np.zeros(v.shape, dtype=int).tolist()
            arr = np.empty(v.shape, dtype=object)
            for ix in np.ndindex(*v.shape):
                x = val(tm.app(name, [const(i) for i in ix], v.sort))
                if x is None:
                    return None
                arr[ix] = x
            out[name] = arr.tolist()
            if v.nan is not None:
                nn = np.empty(v.shape, dtype=object)
                for ix in np.ndindex(*v.shape):
                    nn[ix] = bool(val(v.nan(*[const(i) for i in ix])))
                out[name + "#nan"] = nn.tolist()
        elif isinstance(v, T):
            x = val(v)
            if x is None:
                return None
            out[name] = x
        else:
            out[name] = v
    return out
