"""Symbolic interpreter for the real source text of /repo.

Functions are located through the imported module objects, their source file is
parsed on every run and the AST is executed symbolically.  Dropped by the
extraction: docstrings, annotations and the text of messages (f-strings become
opaque values).  Everything else is executed or raises Unsupported.
"""

from __future__ import annotations

import ast
import dataclasses
import builtins
import enum
import os
import inspect
import itertools
import numbers
import operator
import types
from fractions import Fraction

import numpy as np

from . import terms as tm
from .solver import Prover
from .terms import FALSE, TRUE, T, const, fresh
from .values import (
    JOURNAL,
    BoundMethod,
    Infeasible,
    Opaque,
    PyRaise,
    SArr,
    SDict,
    SFunc,
    SList,
    SObj,
    SRange,
    SSet,
    SuperProxy,
    Unsupported,
    Poison,
    _ids,
    abstractize,
    concretize,
    dim_eq,
    is_sym,
    merge,
    norm_dim,
)

NUM = (int, Fraction)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Observed(Exception):
    """path ends after the observed iteration of a generator loop"""


_ast_cache: dict = {}


def file_ast(path):
    if path not in _ast_cache:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(n.name, first)] = n
            elif isinstance(n, ast.Lambda):
                idx.setdefault(("<lambda>", n.lineno), n)
        _ast_cache[path] = (tree, idx)
    return _ast_cache[path]


def is_generator(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Env:
    __slots__ = ("vars", "parent", "globals", "func", "selfobj", "nonlocals", "uid")

    def __init__(self, globals_, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.func = func
        self.selfobj = None
        self.nonlocals = set()
        self.uid = next(_ids)

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if name in self.globals:
            return abstractize_global(self.globals[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(UnboundLocalError(name))

    def set(self, name, val):
        e = self
        if name in self.nonlocals:
            e = self.parent
            while name not in e.vars:
                e = e.parent
        has = name in e.vars
        old = e.vars.get(name)

        def undo():
            if has:
                e.vars[name] = old
            else:
                e.vars.pop(name, None)

        JOURNAL.record(e, undo)
        e.vars[name] = val

    def delete(self, name):
        old = self.vars[name]
        JOURNAL.record(self, lambda: self.vars.__setitem__(name, old))
        self.vars.pop(name)


def abstractize_global(v):
    if isinstance(v, (types.ModuleType, types.FunctionType, type)):
        return v
    return abstractize(v)


class Path:
    def __init__(self, facts, conds, kind, value):
        self.facts, self.conds, self.kind, self.value = facts, conds, kind, value

    def cond(self):
        return tm.and_(*self.conds)

    def side(self):
        cs = set(self.conds)
        return [f for f in self.facts if f not in cs]


class Machine:
    """path exploration state shared by an interpretation run"""

    def __init__(self, prover=None):
        self.prover = prover or Prover()
        self.facts = []
        self.decisions = []
        self.pos = 0
        self._known = {}
        self.max_paths = 4000
        self.npaths = 0
        self.events = []  # frame events
        self.conds = []  # branch decisions of the current path
        self.loop_ctx = []  # iteration variables of the loops being summarised

    def assume(self, *fs):
        for f in fs:
            f = const(f)
            if f is FALSE:
                raise Infeasible()
            if f is not TRUE:
                self.facts.append(f)

    def fact_key(self):
        return tuple(f.id for f in self.facts)

    def known(self, cond, timeout=1500):
        """True / False when implied by the facts, None when not decided"""
        cond = const(cond)
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        fs = set(self.facts)
        if cond in fs:
            return True
        nc = tm.not_(cond)
        if nc in fs:
            return False
        key = (cond.id, self.fact_key())
        if key in self._known:
            return self._known[key]
        r = None
        if self.prover.prove(self.facts, cond, timeout_ms=timeout, quant=False, depth=1):
            r = True
        elif self.prover.prove(self.facts, nc, timeout_ms=timeout, quant=False, depth=1):
            r = False
        self._known[key] = r
        return r

    def branch(self, cond):
        cond = const(cond)
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        k = self.known(cond)
        if k is not None:
            # implied, hence a sound additional fact for later obligations
            c = cond if k else tm.not_(cond)
            if c not in self.facts:
                self.facts.append(c)
            return k
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(True)
        self.pos += 1
        c = cond if d else tm.not_(cond)
        self.facts.append(c)
        self.conds.append(c)
        return d

    def assume_cond(self, *fs):
        """assume facts that characterise the current path"""
        for f in fs:
            f = const(f)
            if f is FALSE:
                raise Infeasible()
            if f is not TRUE:
                self.facts.append(f)
                self.conds.append(f)

    def fresh(self, prefix, sort):
        """fresh scalar (a function of the enclosing summarised iterations)"""
        v = fresh(prefix, sort)
        if not self.loop_ctx:
            return v
        return tm.app(v.args[0], self.loop_ctx, sort)

    def fresh_fn(self, prefix, sort):
        nm = fresh(prefix, "I").args[0]
        ctx = tuple(self.loop_ctx)
        return lambda *i: tm.app(nm, ctx + tuple(i), sort)

    def choose(self, n, label=""):
        """nondeterministic choice among n alternatives (0..n-1)"""
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = ("c", 0, n)
            self.decisions.append(d)
        self.pos += 1
        return d[1]

    def explore(self, thunk, on_result=None, reset_fresh=False):
        """run thunk along every feasible path; returns a list of Path.  State
        changes are undone after each path."""
        sd, sp, nf, sc = self.decisions, self.pos, len(self.facts), self.conds
        base = list(self.facts)
        f0 = next(tm._fresh)
        results = []
        stack = [[]]
        while stack:
            prefix = stack.pop()
            mark = JOURNAL.mark()
            ne = len(self.events)
            self.decisions = list(prefix)
            self.pos = 0
            self.facts = list(base)
            self.conds = []
            if reset_fresh:
                tm._fresh = itertools.count(f0 + 1)
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("too many paths")
            out = None
            try:
                out = ("ok", thunk())
            except PyRaise as e:
                out = ("raise", e)
            except Infeasible:
                out = None
            finally:
                dec = self.decisions
                facts = self.facts[nf:]
                conds = self.conds
                self.decisions, self.pos, self.conds = sd, sp, sc
                self.facts = list(base)
                JOURNAL.undo(mark)
            if out is not None:
                results.append(Path(facts, conds, *out))
                if on_result:
                    on_result(results[-1])
            for k in range(len(prefix), len(dec)):
                d = dec[k]
                if d is True:
                    stack.append(dec[:k] + [False])
                elif isinstance(d, tuple) and d[0] == "c" and d[1] == 0:
                    for j in range(1, d[2]):
                        stack.append(dec[:k] + [("c", j, d[2])])
        return results


# ---------------------------------------------------------------------------
def _generated_init(cls, init):
    return dataclasses.is_dataclass(cls) and getattr(init, "__code__", None) is not None and init.__code__.co_filename == "<string>"


class Interp:
    def __init__(self, machine=None, models=None, contracts=None):
        from . import npmodel

        self.m = machine or Machine()
        self.models = dict(npmodel.MODELS)
        if models:
            self.models.update(models)
        self.contracts = contracts or {}  # pyfunc -> callable(interp, args, kwargs)
        self.on_yield = None
        self.ghost = None
        self.collector = None
        self.in_gen = False
        self.depth = 0
        self.inlined = {}
        self.models_used = set()
        self.called_contracts = {}
        self.loops = []  # summaries for the evidence
        self.loop_invariants = {}

    # -- functions -----------------------------------------------------------
    def sfunc(self, f):
        """SFunc for a real Python function object defined in /repo"""
        if hasattr(f, "__wrapped__"):
            f = f.__wrapped__
        code = f.__code__
        _, idx = file_ast(code.co_filename)
        node = idx.get((code.co_name, code.co_firstlineno))
        if node is None:
            raise Unsupported(f"no source for {f}")
        env = None
        if f.__closure__:
            env = Env(f.__globals__)
            for n, c in zip(code.co_freevars, f.__closure__):
                try:
                    env.vars[n] = abstractize_global(c.cell_contents)
                except ValueError:
                    pass
        self.inlined[f"{f.__module__}.{f.__qualname__}"] = code.co_filename
        return SFunc(
            node,
            env,
            f.__globals__,
            f.__qualname__,
            defaults=tuple(abstractize(d) for d in (f.__defaults__ or ())),
            kwdefaults={k: abstractize(v) for k, v in (f.__kwdefaults__ or {}).items()},
            owner=_owner_class(f),
            pyfunc=f,
            is_gen=is_generator(node),
        )

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, SFunc):
            return self.call_sfunc(f, args, kwargs)
        if isinstance(f, SObj):
            c = self.class_attr(f.cls, "__call__")
            if c is not None:
                return self.call(BoundMethod(c, f), args, kwargs)
            raise Unsupported(f"call of {f}")
        if callable(f) and getattr(f, "_pyvc_model", False):
            return f(self, *args, **kwargs)
        key = _key(f)
        if key in self.models:
            n = getattr(f, "__qualname__", None) or getattr(f, "__name__", None) or str(f)
            self.models_used.add(f"{getattr(f, '__module__', None) or ''}.{n}")
            return self.models[key](self, *args, **kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, types.FunctionType) and _in_repo(f):
            g = f.__wrapped__ if hasattr(f, "__wrapped__") else f
            if g in self.contracts:
                self.called_contracts[f"{g.__module__}.{g.__qualname__}"] = True
                return self.contracts[g](self, *args, **kwargs)
            return self.call_sfunc(self.sfunc(f), args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)) and args and isinstance(args[0], SObj):
            if f.__objclass__ is list:
                return self.list_op(f.__name__, *args, **kwargs)
            if f is object.__setattr__:
                return self.obj_setattr(*args)
            if f is object.__getattribute__:
                return self.obj_getattr(*args)
            if f is object.__delattr__:
                if args[1] not in args[0].attrs:
                    raise PyRaise(AttributeError(args[1]))
                return args[0].delattr(args[1])
        if f is object.__new__ and args and isinstance(args[0], type) and _in_repo_cls(args[0]):
            return SObj(args[0])
        if not is_sym(args) and not is_sym(kwargs):
            try:
                r = f(*[concretize(a) for a in args], **{k: concretize(v) for k, v in kwargs.items()})
            except Exception as e:
                raise PyRaise(e) from None
            return abstractize(r)
        raise Unsupported(f"call of {f!r} with symbolic arguments")

    def list_op(self, name, o, *args, **kwargs):
        """operation inherited from list"""
        from . import npmodel

        l = o.attrs.get("$items")
        if l is None:
            l = SList([])
            o.setattr("$items", l)
        if name == "__init__":
            return npmodel.l_extend(self, l, args[0]) if args else None
        if name == "__getitem__":
            return npmodel.list_getitem(self, l, *args)
        if name == "__setitem__":
            return npmodel.list_setitem(self, l, *args)
        if name == "__add__":
            return self.binop("Add", npmodel.l_copy(self, l), self.list_of(args[0]))
        if name == "__len__":
            return npmodel.m_len(self, l)
        if name == "__iter__":
            return npmodel.l_copy(self, l)
        if name == "__contains__":
            return self.contains(l, *args)
        if name == "__eq__":
            return self.compare("Eq", l, self.list_of(args[0]))
        if name == "__repr__":
            return Opaque("repr")
        if name in npmodel.LIST_METHODS:
            return npmodel.LIST_METHODS[name](self, l, *args, **kwargs)
        raise Unsupported(f"list.{name}")

    def list_of(self, o):
        if isinstance(o, SObj) and issubclass(o.cls, list):
            return o.attrs.get("$items") or SList([])
        return o

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return _mkexc(cls, args)
        if issubclass(cls, enum.Enum):
            if not is_sym(args):
                try:
                    return cls(*[concretize(a) for a in args])
                except Exception as e:
                    raise PyRaise(e) from None
            raise Unsupported("enum of symbolic")
        if _in_repo_cls(cls):
            o = SObj(cls)
            init = self.class_attr(cls, "__init__")
            if _generated_init(cls, init):
                self.init_dataclass(o, args, kwargs)
            elif init is not None and init is not object.__init__:
                self.call(init, [o] + list(args), kwargs)
            return o
        if not is_sym(args) and not is_sym(kwargs):
            try:
                return abstractize(cls(*[concretize(a) for a in args], **{k: concretize(v) for k, v in kwargs.items()}))
            except Exception as e:
                raise PyRaise(e) from None
        raise Unsupported(f"instantiation of {cls}")

    def init_dataclass(self, o, args, kwargs):
        """constructor written by dataclasses.dataclass"""
        fs = [f for f in dataclasses.fields(o.cls) if f.init]
        if len(args) > len(fs):
            raise PyRaise(TypeError("too many arguments"))
        vals = dict(zip((f.name for f in fs), args))
        for k, v in kwargs.items():
            if k in vals or k not in {f.name for f in fs}:
                raise PyRaise(TypeError(f"unexpected argument {k}"))
            vals[k] = v
        for f in dataclasses.fields(o.cls):
            if f.name in vals:
                v = vals[f.name]
            elif f.default is not dataclasses.MISSING:
                v = abstractize(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory, [], {})
            elif not f.init:
                continue
            else:
                raise PyRaise(TypeError(f"missing argument {f.name}"))
            o.setattr(f.name, v)
        post = self.class_attr(o.cls, "__post_init__")
        if post is not None:
            self.call(post, [o], {})

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos_names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(pos_names) and a.vararg is None:
            raise PyRaise(TypeError(f"{f.name}() takes {len(pos_names)} positional arguments"))
        for n, v in zip(pos_names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = SList(args[len(pos_names) :], is_tuple=True)
        extra = {}
        names = set(pos_names) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in vals:
                    raise PyRaise(TypeError(f"{f.name}() got multiple values for {k}"))
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = SDict(extra)
        elif extra:
            raise PyRaise(TypeError(f"{f.name}() got an unexpected keyword argument {list(extra)}"))
        nd = len(f.defaults)
        for n, d in zip(pos_names[len(pos_names) - nd :], f.defaults):
            vals.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vals.setdefault(n, d)
        for n in pos_names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise PyRaise(TypeError(f"{f.name}() missing argument {n}"))
        return vals

    def call_sfunc(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        try:
            env = Env(f.globals, f.env, f)
            vals = self.bind(f, args, kwargs)
            for k, v in vals.items():
                env.vars[k] = v
            names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            if names and f.owner is not None:
                env.selfobj = env.vars[names[0]]
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.is_gen:
                return self.run_generator(f, env)
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def run_generator(self, f, env):
        """the outermost generator under observation reports its values through
        on_yield; any other generator is run eagerly into a list"""
        oy, col = self.on_yield, self.collector
        lst = None
        if oy is None or self.in_gen:
            self.on_yield = None
            self.collector = lst = SList([])
        inside, self.in_gen = self.in_gen, True
        try:
            self.block(f.node.body, env)
        except _Return:
            pass
        finally:
            self.on_yield, self.collector, self.in_gen = oy, col, inside
        return lst

    # -- statements ------------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Import(self, s, env):
        import importlib

        for a in s.names:
            mod = importlib.import_module(a.name)
            env.set(a.asname or a.name.split(".")[0], mod if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        import importlib

        mod = importlib.import_module(s.module)
        for a in s.names:
            env.set(a.asname or a.name, getattr(mod, a.name))

    def s_FunctionDef(self, s, env):
        f = SFunc(
            s,
            env,
            env.globals,
            s.name,
            defaults=tuple(self.eval(d, env) for d in s.args.defaults),
            kwdefaults={
                k.arg: self.eval(d, env) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None
            },
            is_gen=is_generator(s),
        )
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v])
        env.set(s.name, v)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        opn = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            v = self.eval(s.value, env)
            env.set(t.id, self.inplace(opn, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, env)
            self.setattr(o, t.attr, self.inplace(opn, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            cur = self.getitem(o, ix)
            v = self.eval(s.value, env)
            self.setitem(o, ix, self.binop(opn, cur, v))
        else:
            raise Unsupported("augassign target")

    def inplace(self, opn, cur, v):
        if isinstance(cur, SArr):
            r = self.binop(opn, cur, v)
            if len(r.shape) != len(cur.shape) or not all(self.same_dim(a, b) for a, b in zip(r.shape, cur.shape)):
                raise PyRaise(ValueError("non-broadcastable output operand"))
            fz = r.frozen()
            self.write_array(cur, lambda *i: fz.get(*i), r.sort)
            return cur
        if isinstance(cur, SList) and not cur.is_tuple and opn == "Add":
            other = self.iter_list(v)
            if cur.concrete:
                cur.replace(items=cur.items + other)
                return cur
            raise Unsupported("+= on symbolic list")
        return self.binop(opn, cur, v)

    def write_array(self, arr, fn, sort=None):
        """overwrite the whole contents of arr (in place)"""
        root = arr.root()
        self.note_write(root)
        if arr.view is not None:
            base, mp = arr.view
            inv = getattr(arr, "view_inv", None)
            if inv is None:
                raise Unsupported("write through view")
            fz = base.frozen()

            def nfn(*i):
                c, j = inv(*i)
                return tm.ite(c, fn(*j), fz.get(*i))

            self.write_array(base, nfn, sort)
            return
        arr.set_fn(fn, sort if arr.sort != "R" else None)

    def note_write(self, root):
        if root.origin is not None:
            self.m.events.append(("write", root.origin, list(self.m.facts)))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.iter_list(v, None if star else len(t.elts))
            if star:
                k = star[0]
                na = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, SList(items[k : len(items) - na]), env)
                for e, x in zip(t.elts[k + 1 :], items[len(items) - na :]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ValueError("unpack"))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assign target")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.delete(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                self.delattr(o, t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval_index(t.slice, env)
                if isinstance(o, SDict):
                    o.pop(i)
                elif isinstance(o, SList) and o.concrete and isinstance(i, int):
                    items = list(o.items)
                    if not -len(items) <= i < len(items):
                        raise PyRaise(IndexError("list assignment index out of range"))
                    del items[i]
                    o.replace(items=items)
                else:
                    raise Unsupported("del subscript")
            else:
                raise Unsupported("del")

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError())

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported("bare raise")
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = _mkexc(e, [])
        if isinstance(e, SObj):
            e = _mkexc(e.cls, [])
        raise PyRaise(e, f"line {s.lineno}")

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    classes = [BaseException]
                    if h.type is not None:
                        c = self.eval(h.type, env)
                        classes = self.iter_list(c) if isinstance(c, SList) else [c]
                    if isinstance(e.exc, tuple(classes)):
                        if h.name:
                            env.set(h.name, e.exc)
                        try:
                            self.block(h.body, env)
                        except Unsupported as u:
                            if "bare raise" in str(u):
                                raise e from None
                            raise
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        for item in s.items:
            c = self.eval(item.context_expr, env)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, c, env)
        self.block(s.body, env)

    def s_Match(self, s, env):
        subj = self.eval(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, subj, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                env.set(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        raise Unsupported("match pattern")

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        from . import loops

        loops.run_for(self, s, it, env)

    def s_While(self, s, env):
        from . import loops

        loops.run_while(self, s, env)

    def s_ClassDef(self, s, env):
        raise Unsupported("nested class")

    # -- truth -------------------------------------------------------------------
    def truth(self, v):
        b = self.to_bool(v)
        if isinstance(b, T):
            return self.m.branch(b)
        return bool(b)

    def to_bool(self, v):
        """bool or boolean term"""
        if v is None or isinstance(v, (bool, str)):
            return bool(v)
        if isinstance(v, T):
            if v.sort == "B":
                return v
            return tm.ne(v, 0)
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, SList):
            n = v.length()
            return n != 0 if isinstance(n, int) else tm.ne(n, 0)
        if isinstance(v, SDict):
            return len(v.d) > 0
        if isinstance(v, SSet):
            if v.items is not None:
                return len(v.items) > 0
            raise Unsupported("truth of symbolic set")
        if isinstance(v, SArr):
            if v.ndim == 0:
                return self.to_bool(v.get())
            if all(isinstance(d, int) and d == 1 for d in v.shape):
                return self.to_bool(v.get(*[0] * v.ndim))
            raise PyRaise(ValueError("truth value of an array is ambiguous"))
        if isinstance(v, SObj):
            for nm in ("__bool__", "__len__"):
                c = self.class_attr(v.cls, nm)
                if c is not None:
                    return self.to_bool(self.call(BoundMethod(c, v)))
            return True
        if isinstance(v, (SFunc, BoundMethod)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v}")
        return bool(v)

    # -- expressions ----------------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {e.lineno}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return abstractize(v)
        return v

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), self.mangled(e.attr, env))

    def mangled(self, name, env):
        """private names __x are written _Class__x outside their class body"""
        if not name.startswith("__") or name.endswith("__"):
            return name
        en = env
        while en is not None:
            f = getattr(en, "func", None)
            if f is not None and f.owner is not None:
                return f"_{f.owner.__name__.lstrip('_')}{name}"
            en = en.parent
        return name

    def e_Tuple(self, e, env):
        return SList(self.elts(e.elts, env), is_tuple=True)

    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            # concatenation, so that sequences of symbolic length are allowed
            r = SList([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s = self.sequence(self.eval(x.value, env))
                    n = s.length()
                    if isinstance(n, T) and tm.numval(n) is None:
                        y = SList(n=n, fn=s.get)
                    else:
                        n = int(tm.numval(n)) if isinstance(n, T) else n
                        y = SList([s.get(k) for k in range(n)])
                else:
                    y = SList([self.eval(x, env)])
                r = self.binop("Add", r, y)
            return r
        return SList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return _mkset(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iter_list(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                for kk, vv in src.d.items():
                    d.d[kk] = vv
            else:
                d.d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, SList) and k.is_tuple and k.concrete:
            return tuple(self.hashable(x) for x in k.items)
        if isinstance(k, T):
            v = tm.numval(k)
            if v is not None and v.denominator == 1:
                return int(v)
            raise Unsupported("symbolic dict key")
        return k

    def e_JoinedStr(self, e, env):
        parts, sym = [], []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            try:
                x = self.eval(v.value, env)
            except (Unsupported, PyRaise):
                return Opaque("fstring")
            if isinstance(x, T) and x.sort in ("I", "U") and v.format_spec is None:
                parts.append("{}")
                sym.append(x)
                continue
            if is_sym(x) or not isinstance(x, (str, int, enum.Enum)) or v.format_spec is not None:
                return Opaque("fstring")
            parts.append(format(x))
        if sym:
            return tm.app("fmt:" + "".join(parts), sym, "U")
        return "".join(parts)

    def e_Lambda(self, e, env):
        return SFunc(e, env, env.globals, "<lambda>", defaults=tuple(self.eval(d, env) for d in e.args.defaults))

    def e_IfExp(self, e, env):
        c = self.to_bool(self.eval(e.test, env))
        if not isinstance(c, T):
            return self.eval(e.body if c else e.orelse, env)
        return self.eval(e.body if self.m.branch(c) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1:
                return v
            b = self.to_bool(v)
            if isinstance(b, T):
                # try to stay path-free when the rest is boolean and pure
                rest = self._pure_bools(e.values[k + 1 :], env)
                if rest is not None:
                    bs = [b] + rest
                    return tm.and_(*bs) if isand else tm.or_(*bs)
                b = self.m.branch(b)
            if isand and not b:
                return v if not isinstance(v, T) else False
            if not isand and b:
                return v if not isinstance(v, T) else True
        return v

    def _pure_bools(self, es, env):
        for x in es:
            for n in ast.walk(x):
                if isinstance(n, (ast.Call, ast.Subscript, ast.NamedExpr, ast.Await, ast.Yield)):
                    return None
        out = []
        for x in es:
            v = self.eval(x, env)
            if isinstance(v, bool):
                out.append(const(v))
            elif isinstance(v, T) and v.sort == "B":
                out.append(v)
            else:
                return None
        return out

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            b = self.to_bool(v)
            return tm.not_(b) if isinstance(b, T) else (not b)
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, (int, Fraction, float)) and not isinstance(v, T):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: (not v) if isinstance(v, bool) else ~v}[op]()
        if isinstance(v, T):
            if op == "USub":
                return -v if v.sort != "B" else -tm.ind(v)
            if op == "UAdd":
                return v
            if op == "Invert" and v.sort == "B":
                return tm.not_(v)
        if isinstance(v, SArr):
            f = v.frozen()
            if op == "USub":
                return SArr(v.shape, lambda *i: -num_of(f.get(*i)), "I" if v.sort == "B" else v.sort)
            if op == "UAdd":
                return v
            if op == "Invert" and v.sort == "B":
                return SArr(v.shape, lambda *i: tm.not_(f.get(*i)), "B")
        if isinstance(v, SObj):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            c = self.class_attr(v.cls, nm)
            if c is not None:
                return self.call(BoundMethod(c, v))
        h = getattr(v, "pyvc_unop", None)
        if h:
            return h(self, op)
        raise Unsupported(f"unary {op} on {v!r}")

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        from . import npmodel

        if isinstance(a, bool):
            a = int(a) if op not in ("BitAnd", "BitOr", "BitXor") else a
        if isinstance(b, bool):
            b = int(b) if op not in ("BitAnd", "BitOr", "BitXor") else b
        for x, y, nm in ((a, b, "pyvc_binop"), (b, a, "pyvc_rbinop")):
            h = getattr(x, nm, None)
            if h is not None:
                return h(self, op, y)
        if isinstance(a, SObj) or isinstance(b, SObj):
            return self.obj_binop(op, a, b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            if isinstance(a, str) or isinstance(b, str):
                raise Unsupported("array with string")
            return npmodel.array_binop(self, op, a, b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return npmodel.array_binop(self, op, a, b)
        if isinstance(a, (T, int, Fraction, float)) and isinstance(b, (T, int, Fraction, float)):
            return npmodel.scalar_binop(self, op, a, b)
        if isinstance(a, SList) and isinstance(b, SList) and op == "Add":
            if a.concrete and b.concrete:
                return SList(a.items + b.items, is_tuple=a.is_tuple)
            na, nb = const(a.length()), const(b.length())
            ga, gb = _getter(a), _getter(b)
            from .values import sym_ite

            return SList(n=na + nb, fn=lambda i: sym_ite(tm.lt(i, na), lambda: ga(i), lambda: gb(i - na)))
        if isinstance(a, SList) and op == "Mult":
            if a.concrete and isinstance(b, int):
                return SList(a.items * b, is_tuple=a.is_tuple)
            if a.concrete and len(a.items) == 1 and isinstance(b, T):
                x = a.items[0]
                return SList(n=tm.pos(b), fn=lambda i: x)
        if isinstance(a, SSet) and isinstance(b, SSet):
            pa, pb = a.contains_fn(), b.contains_fn()
            if op == "BitOr":
                return SSet(pred=lambda x: tm.or_(pa(x), pb(x)))
            if op == "BitAnd":
                return SSet(pred=lambda x: tm.and_(pa(x), pb(x)))
            if op == "Sub":
                return SSet(pred=lambda x: tm.and_(pa(x), tm.not_(pb(x))))
        if isinstance(a, SDict) and isinstance(b, SDict) and op == "BitOr":
            return SDict({**a.d, **b.d})
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            if isinstance(a, str) and isinstance(b, str) and op == "Add":
                return a + b
            return Opaque("str")
        if not is_sym(a) and not is_sym(b):
            try:
                return abstractize(getattr(operator, _OPN[op])(concretize(a), concretize(b)))
            except Exception as ex:
                raise PyRaise(ex) from None
        raise Unsupported(f"{op} on {a!r}, {b!r}")

    def obj_binop(self, op, a, b):
        nm = _DUNDER[op]
        if isinstance(a, SObj):
            c = self.class_attr(a.cls, f"__{nm}__")
            if c is not None:
                r = self.call(BoundMethod(c, a), [b])
                if r is not NotImplemented:
                    return r
        if isinstance(b, SObj):
            c = self.class_attr(b.cls, f"__r{nm}__")
            if c is not None:
                r = self.call(BoundMethod(c, b), [a])
                if r is not NotImplemented:
                    return r
        raise PyRaise(TypeError(f"unsupported operand {op}"))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                b1, b2 = self.to_bool(res), self.to_bool(c)
                res = tm.and_(const(b1), const(b2))
                if res is TRUE:
                    res = True
                elif res is FALSE:
                    res = False
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel

        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return tm.not_(r) if isinstance(r, T) else (not r)
        for x, y, o in ((a, b, op), (b, a, _SWAP.get(op, op))):
            h = getattr(x, "pyvc_compare", None)
            if h is not None:
                return h(self, o, y)
        if isinstance(a, SObj) or isinstance(b, SObj):
            o, x, y = (op, a, b) if isinstance(a, SObj) else (_SWAP[op], b, a)
            c = self.class_attr(x.cls, _CMPD[o])
            if c is not None and not isinstance(c, types.WrapperDescriptorType):
                r = self.call(BoundMethod(c, x), [y])
                if r is not NotImplemented:
                    return r
            if op == "Eq":
                return a is b
            if op == "NotEq":
                return a is not b
            raise PyRaise(TypeError(f"{op} not supported"))
        if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
            return npmodel.array_compare(self, op, a, b)
        if isinstance(a, (T, int, Fraction, float)) and isinstance(b, (T, int, Fraction, float)):
            return npmodel.scalar_compare(op, a, b)
        if isinstance(a, SList) and isinstance(b, SList) and op in ("Eq", "NotEq"):
            if a.concrete and b.concrete:
                if len(a.items) != len(b.items):
                    r = FALSE
                else:
                    r = tm.and_(*[const(self.to_bool(self.compare("Eq", x, y))) for x, y in zip(a.items, b.items)])
                r = r if op == "Eq" else tm.not_(r)
                return True if r is TRUE else False if r is FALSE else r
        if op in ("Eq", "NotEq"):
            ka, kb = _kind(a), _kind(b)
            if ka != kb and not (is_sym(a) and is_sym(b)) and (a is None or b is None or isinstance(a, (str, enum.Enum, type)) or isinstance(b, (str, enum.Enum, type))):
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Unsupported("comparison with opaque")
                r = False
                if not is_sym(a) and not is_sym(b):
                    r = a == b
                return r if op == "Eq" else not r
        if not is_sym(a) and not is_sym(b):
            try:
                return abstractize(getattr(operator, _CMPO[op])(concretize(a), concretize(b)))
            except Exception as ex:
                raise PyRaise(ex) from None
        raise Unsupported(f"compare {op} {a!r} {b!r}")

    def is_same(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of undefined value")
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (SArr, SList, SObj, SDict, SSet)) or isinstance(b, (SArr, SList, SObj, SDict, SSet)):
            return a is b
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, bool) or isinstance(b, bool):
                t, o = (a, b) if isinstance(a, T) else (b, a)
                if t.sort == "B":
                    return self.m.branch(t if o else tm.not_(t))
                return False
            raise Unsupported("is on symbolic scalar")
        return a is b or (isinstance(a, (str, int)) and type(a) is type(b) and a == b)

    def contains(self, c, x):
        h = getattr(c, "pyvc_contains", None)
        if h:
            return h(self, x)
        if isinstance(c, SSet):
            if c.items is not None and not is_sym(x):
                return x in c.items
            return c.contains(x)
        if isinstance(c, SDict):
            return self.hashable(x) in c.d
        if isinstance(c, SList):
            if c.concrete:
                r = tm.or_(*[const(self.to_bool(self.compare("Eq", x, y))) for y in c.items])
                return True if r is TRUE else False if r is FALSE else r
            return tm.exists(c.n, lambda i: const(self.to_bool(self.compare("Eq", c.get(i), x))))
        if isinstance(c, SArr) and c.ndim == 1:
            return tm.exists(c.shape[0], lambda i: tm.eq(c.get(i), const(x)))
        if isinstance(c, SRange):
            x = const(x)
            if const(c.step) is tm.ONE:
                return tm.and_(tm.le(c.start, x), tm.lt(x, c.stop))
        if isinstance(c, SObj):
            f = self.class_attr(c.cls, "__contains__")
            if f is not None:
                return self.call(BoundMethod(f, c), [x])
        if not is_sym(c) and not is_sym(x):
            try:
                return concretize(x) in concretize(c)
            except Exception as ex:
                raise PyRaise(ex) from None
        raise Unsupported(f"in on {c!r}")

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = env.func
            en = env
            while f is None or f.owner is None:
                en = en.parent
                f = en.func
            return SuperProxy(f.owner, en.selfobj)
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iter_list(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                src = d.d if isinstance(d, SDict) else dict(d)
                for kk, vv in src.items():
                    if kk in kwargs:
                        raise PyRaise(TypeError(f"multiple values for keyword {kk}"))
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if f is builtins.locals:
            return SDict(dict(env.vars))
        return self.call(f, args, kwargs)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.set(e.target.id, v)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Slice(self, e, env):
        return slice(
            self.eval(e.lower, env) if e.lower else None,
            self.eval(e.upper, env) if e.upper else None,
            self.eval(e.step, env) if e.step else None,
        )

    def eval_index(self, n, env):
        if isinstance(n, ast.Tuple):
            return SList([self.eval_index(x, env) for x in n.elts], is_tuple=True)
        return self.eval(n, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval_index(e.slice, env))

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        if self.on_yield is not None:
            self.on_yield(v)
        elif self.collector is not None:
            self.collector.append(v)
        else:
            raise Unsupported("yield")
        return None

    def count_yield(self):
        """ghost counter of the values yielded so far"""
        if self.ghost is not None:
            self.ghost.setattr("yields", self.ghost.attrs["yields"] + 1)

    def e_ListComp(self, e, env):
        from . import loops

        return loops.comprehension(self, e, env, "list")

    def e_GeneratorExp(self, e, env):
        from . import loops

        return loops.comprehension(self, e, env, "list")

    def e_SetComp(self, e, env):
        from . import loops

        return loops.comprehension(self, e, env, "set")

    def e_DictComp(self, e, env):
        from . import loops

        return loops.comprehension(self, e, env, "dict")

    # -- attributes ---------------------------------------------------------------
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def getattr(self, o, name, default=Ellipsis):
        from . import npmodel

        h = getattr(o, "pyvc_getattr", None)
        if h is not None:
            return h(self, name)
        if isinstance(o, SObj):
            ga = self.class_attr(o.cls, "__getattribute__")
            if isinstance(ga, types.FunctionType) and _in_repo(ga):
                return self.call(ga, [o, name])
            return self.obj_getattr(o, name)
        if isinstance(o, SuperProxy):
            mro = _mro_of(o.obj)
            k = mro.index(o.cls)
            for c in mro[k + 1 :]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    return self.bind_attr(a, o.obj, c, name)
            raise PyRaise(AttributeError(name))
        if isinstance(o, SArr):
            return npmodel.array_attr(self, o, name)
        if isinstance(o, (SList, SDict, SSet, str, Opaque)) and not isinstance(o, enum.Enum):
            return npmodel.container_attr(self, o, name)
        if isinstance(o, T) or (isinstance(o, (int, Fraction)) and not isinstance(o, enum.Enum)):
            return npmodel.scalar_attr(self, o, name)
        if isinstance(o, SFunc):
            if name == "__name__":
                return o.name
            if name == "__code__":
                names = [a.arg for a in o.node.args.posonlyargs + o.node.args.args]
                return SObj(types.SimpleNamespace, dict(co_argcount=len(names), co_varnames=SList(names, is_tuple=True)))
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.obj
            f = o.func
            return getattr(getattr(f, "__wrapped__", f), name)
        if isinstance(o, type) and (_in_repo_cls(o)):
            for c in o.__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return BoundMethod(a.__func__, o)
                    break
        if isinstance(o, enum.Enum) and _in_repo_cls(type(o)):
            a = self.class_attr(type(o), name)
            if isinstance(a, property) and _in_repo(a.fget):
                return self.call(a.fget, [o])
            if isinstance(a, types.FunctionType) and _in_repo(a):
                return BoundMethod(a, o)
        try:
            v = getattr(o, name)
        except AttributeError as ex:
            raise PyRaise(ex) from None
        return abstractize_global(v) if not isinstance(v, (types.BuiltinFunctionType, types.MethodType)) else v

    def bind_attr(self, a, obj, cls, name):
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return BoundMethod(a.__func__, obj.cls if isinstance(obj, SObj) else obj)
        if isinstance(a, property):
            return self.call(a.fget, [obj])
        if isinstance(a, types.FunctionType):
            return BoundMethod(a, obj)
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            if a.__objclass__ is list:
                return BoundMethod(a, obj)
            return BoundMethod(_builtin_slot(a, name), obj)
        if isinstance(a, types.MemberDescriptorType):
            if isinstance(obj, SObj) and name in obj.attrs:
                return obj.attrs[name]
            raise PyRaise(AttributeError(name))
        g = self.class_attr(type(a), "__get__")
        if isinstance(g, types.FunctionType) and _in_repo(g):
            return self.call(g, [_real_obj(a), obj, cls])
        if hasattr(type(a), "__get__"):
            import functools

            if isinstance(a, functools.cached_property):
                if name in obj.attrs:
                    return obj.attrs[name]
                v = self.call(a.func, [obj])
                obj.setattr(name, v)
                return v
            raise Unsupported(f"descriptor {a!r} for {name}")
        return abstractize_global(a)

    def obj_getattr(self, o, name):
        """object.__getattribute__"""
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return SDict(o.attrs)
        a = None
        owner = None
        for c in o.cls.__mro__:
            if name in c.__dict__:
                a, owner = c.__dict__[name], c
                break
        if owner is not None and (hasattr(type(a), "__set__") or isinstance(a, property)):
            return self.bind_attr(a, o, owner, name)
        if name in o.attrs:
            return o.attrs[name]
        if owner is not None:
            return self.bind_attr(a, o, owner, name)
        ga = self.class_attr(o.cls, "__getattr__")
        if ga is not None and isinstance(ga, types.FunctionType):
            return self.call(ga, [o, name])
        h = getattr(o, "attr_hook", None)
        if h is not None:
            return h(self, name)
        raise PyRaise(AttributeError(f"{o.cls.__name__} has no attribute {name}"))

    def setattr(self, o, name, v):
        h = getattr(o, "pyvc_setattr", None)
        if h is not None:
            return h(self, name, v)
        if isinstance(o, SuperProxy):
            return self.obj_setattr(o.obj, name, v)
        if isinstance(o, SObj):
            sa = self.class_attr(o.cls, "__setattr__")
            if isinstance(sa, types.FunctionType) and _in_repo(sa):
                return self.call(sa, [o, name, v])
            return self.obj_setattr(o, name, v)
        raise Unsupported(f"setattr on {o!r}")

    def obj_setattr(self, o, name, v):
        a = self.class_attr(o.cls, name)
        if isinstance(a, property):
            if a.fset is None:
                raise PyRaise(AttributeError(f"can't set attribute {name}"))
            self.call(a.fset, [o, v])
            return
        if a is not None and not isinstance(a, types.MemberDescriptorType):
            s = self.class_attr(type(a), "__set__")
            if isinstance(s, types.FunctionType) and _in_repo(s):
                self.call(s, [_real_obj(a), o, v])
                return
        o.setattr(name, v)

    def delattr(self, o, name):
        if isinstance(o, SObj):
            da = self.class_attr(o.cls, "__delattr__")
            if isinstance(da, types.FunctionType) and _in_repo(da):
                return self.call(da, [o, name])
            if name not in o.attrs:
                raise PyRaise(AttributeError(name))
            o.delattr(name)
            return
        raise Unsupported("delattr")

    # -- items -------------------------------------------------------------------
    def getitem(self, o, ix):
        from . import npmodel

        h = getattr(o, "pyvc_getitem", None)
        if h is not None:
            return h(self, ix)
        if isinstance(o, SArr):
            return npmodel.array_getitem(self, o, ix)
        if isinstance(o, SList):
            return npmodel.list_getitem(self, o, ix)
        if isinstance(o, SDict):
            k = self.hashable(ix)
            if k not in o.d:
                raise PyRaise(KeyError(k))
            return o.d[k]
        if isinstance(o, SObj):
            f = self.class_attr(o.cls, "__getitem__")
            if f is not None:
                return self.call(BoundMethod(f, o), [ix])
        if isinstance(o, type):
            return o
        if not is_sym(o) and not is_sym(ix):
            try:
                i = concretize(ix)
                if isinstance(i, float) and i.is_integer():
                    i = int(i)
                return abstractize(o[i])
            except Exception as ex:
                raise PyRaise(ex) from None
        raise Unsupported(f"getitem on {o!r}")

    def setitem(self, o, ix, v):
        from . import npmodel

        h = getattr(o, "pyvc_setitem", None)
        if h is not None:
            return h(self, ix, v)
        if isinstance(o, SArr):
            return npmodel.array_setitem(self, o, ix, v)
        if isinstance(o, SList):
            return npmodel.list_setitem(self, o, ix, v)
        if isinstance(o, SDict):
            o.set(self.hashable(ix), v)
            return
        if isinstance(o, SObj):
            f = self.class_attr(o.cls, "__setitem__")
            if f is not None:
                return self.call(BoundMethod(f, o), [ix, v])
        raise Unsupported(f"setitem on {o!r}")

    # -- iteration ------------------------------------------------------------------
    def iter_list(self, v, expect=None):
        """concrete list of items"""
        from . import npmodel

        it = self.sequence(v)
        n = it.length()
        if isinstance(n, T):
            nv = tm.numval(n)
            if nv is not None:
                n = int(nv)
            elif expect is not None:
                if not self.m.branch(tm.eq(n, expect)):
                    raise PyRaise(ValueError("unpack"))
                n = expect
            else:
                raise Unsupported("iteration over symbolic sequence in concrete context")
        return [it.get(k) for k in range(n)]

    def sequence(self, v):
        """SList/SRange-like with length() and get(k)"""
        from . import npmodel

        if isinstance(v, (SList, SRange)):
            return v
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyRaise(TypeError("iteration over a 0-d array"))
            return SList(n=const(v.shape[0]), fn=lambda k: npmodel.array_getitem(self, v, k, nocheck=True)) if not isinstance(v.shape[0], int) else SList(
                [npmodel.array_getitem(self, v, k) for k in range(v.shape[0])]
            )
        h = getattr(v, "pyvc_sequence", None)
        if h is not None:
            return h(self)
        if isinstance(v, SDict):
            return SList(list(v.d))
        if isinstance(v, SSet) and v.items is not None:
            return SList(list(v.items))
        if isinstance(v, SSet) and v.source is not None and v.source[2] is v.pred:
            from . import npmodel

            return npmodel.set_elements(self, v)
        if isinstance(v, SObj):
            f = self.class_attr(v.cls, "__iter__")
            if f is not None:
                return self.sequence(self.call(BoundMethod(f, v)))
            f = self.class_attr(v.cls, "__getitem__")
            g = self.class_attr(v.cls, "__len__")
            if f is not None and g is not None:
                n = self.call(BoundMethod(g, v))
                return SList([self.call(BoundMethod(f, v), [k]) for k in range(n)]) if isinstance(n, int) else SList(n=n, fn=lambda k: self.call(BoundMethod(f, v), [k]))
        if isinstance(v, (range, str, type({}.items()), type({}.keys()), type({}.values()), enum.EnumMeta, zip, enumerate, map)) or hasattr(v, "__iter__"):
            if not is_sym(v):
                return SList([abstractize(x) for x in v])
        raise Unsupported(f"iteration over {v!r}")

    def same_dim(self, a, b):
        if dim_eq(a, b):
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.m.branch(tm.eq(const(a), const(b)))


def _real_obj(a):
    """wrap a real (non symbolic) helper object such as a descriptor so that its
    source can be interpreted"""
    o = SObj(type(a))
    for k, v in getattr(a, "__dict__", {}).items():
        o.attrs[k] = abstractize_global(v)
    return o


def _mro_of(obj):
    cls = obj.cls if isinstance(obj, SObj) else (obj if isinstance(obj, type) else type(obj))
    return list(cls.__mro__)


class _Slot:
    _pyvc_model = True

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, interp, *a, **k):
        return self.f(interp, *a, **k)


def _builtin_slot(a, name):
    if name == "__init__":
        return _Slot(name, lambda it, obj, *a, **k: None)
    if name == "__setattr__":
        return _Slot(name, lambda it, obj, n, v: it.obj_setattr(obj, n, v))
    if name == "__getattribute__":
        return _Slot(name, lambda it, obj, n: it.obj_getattr(obj, n))
    if name == "__delattr__":
        return _Slot(name, lambda it, obj, n: obj.delattr(n))
    if name == "__eq__":
        return _Slot(name, lambda it, obj, o: obj is o)
    if name == "__hash__":
        return _Slot(name, lambda it, obj: obj.uid)
    raise Unsupported(f"builtin slot {name}")


def _getter(l):
    if l.concrete:
        items = list(l.items)

        def g(i):
            v = tm.numval(i)
            if v is not None:
                return items[int(v)]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = merge(tm.eq(i, k), items[k], r)
            return r

        return g
    return l.efn


def _mkset(items):
    if any(is_sym(x) for x in items):
        return SSet(pred=lambda y: tm.or_(*[tm.eq(y, const(x)) for x in items]))
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return SSet(items=out)


def num_of(t):
    t = const(t)
    return tm.ind(t) if t.sort == "B" else t


def _mkexc(cls, args):
    try:
        return cls(*[concretize(a) if not is_sym(a) else "<symbolic>" for a in args])
    except Exception:
        e = cls.__new__(cls)
        return e


def _kind(a):
    if isinstance(a, (T, int, Fraction, float)) and not isinstance(a, enum.Enum):
        return "num"
    if isinstance(a, SList):
        return "list"
    return type(a).__name__


def _key(f):
    try:
        hash(f)
        return f
    except TypeError:
        return id(f)


REPO = "/repo/src/skfolio"
# stand-ins of estimators written in the contracts are interpreted as well
SIDE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts") + os.sep


def _in_repo(f):
    f = getattr(f, "__wrapped__", f)
    return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith((REPO, SIDE))


def _in_repo_cls(c):
    return c.__module__.startswith(("skfolio", "contracts"))


_owner_cache: dict = {}


def _owner_class(f):
    """class whose body defines f"""
    q = f.__qualname__
    if "." not in q or "<locals>" in q.split(".")[-2]:
        return None
    import sys

    mod = sys.modules.get(f.__module__)
    o = mod
    for p in q.split(".")[:-1]:
        if p == "<locals>":
            return None
        o = getattr(o, p, None)
        if o is None:
            return None
    return o if isinstance(o, type) else None


_OPN = dict(
    Add="add", Sub="sub", Mult="mul", Div="truediv", FloorDiv="floordiv", Mod="mod", Pow="pow", MatMult="matmul",
    BitAnd="and_", BitOr="or_", BitXor="xor", LShift="lshift", RShift="rshift",
)
_DUNDER = dict(
    Add="add", Sub="sub", Mult="mul", Div="truediv", FloorDiv="floordiv", Mod="mod", Pow="pow", MatMult="matmul",
    BitAnd="and", BitOr="or", BitXor="xor", LShift="lshift", RShift="rshift",
)
_CMPO = dict(Eq="eq", NotEq="ne", Lt="lt", LtE="le", Gt="gt", GtE="ge")
_CMPD = dict(Eq="__eq__", NotEq="__ne__", Lt="__lt__", LtE="__le__", Gt="__gt__", GtE="__ge__")
_SWAP = dict(Eq="Eq", NotEq="NotEq", Lt="Gt", LtE="GtE", Gt="Lt", GtE="LtE")
