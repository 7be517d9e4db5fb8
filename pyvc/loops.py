"""Loops over symbolic sequences: automatic summaries.

The body is executed once at a symbolic iteration k from an arbitrary ("havoc")
state.  For every location it changes a closed form closed(k) of the value at
the start of iteration k is derived from the update; the closed form is the loop
invariant, and base case closed(0) = initial value and step closed(k+1) =
update[closed(k)] hold by the rule that produced it (rules below).  Nothing
depends on the names of the program's variables.
"""

from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from .interp import Env, Observed, _Break, _Continue, _Return
from .terms import FALSE, TRUE, T, const
from .values import (
    JOURNAL,
    BoundMethod,
    Infeasible,
    Poison,
    PyRaise,
    SArr,
    SDict,
    SFunc,
    SList,
    SObj,
    SRange,
    SSet,
    Unsupported,
    _ids,
    merge,
    sym_ite,
)

UNROLL_LIMIT = 400


def _len(seq):
    n = seq.length()
    if isinstance(n, T):
        v = tm.numval(n)
        return int(v) if v is not None else n
    return n


def run_for(it, node, iterable, env):
    seq = it.sequence(iterable)
    n = _len(seq)
    if isinstance(n, int):
        if n > UNROLL_LIMIT:
            raise Unsupported("loop too long")
        for k in range(n):
            it.assign(node.target, seq.get(k), env)
            try:
                it.block(node.body, env)
            except _Continue:
                continue
            except _Break:
                return
        it.block(node.orelse, env)
        return
    get = seq.get

    def body(k):
        it.assign(node.target, get(k), env)
        it.block(node.body, env)

    broke = summarise(it, env, n, body, node)
    if not broke:
        it.block(node.orelse, env)


def run_while(it, node, env):
    """while loops: concrete unrolling when every test is decided, otherwise a
    summary with an unknown number of iterations"""
    import ast

    count = 0
    forever = isinstance(node.test, ast.Constant) and not getattr(it, "unroll_while", False)
    while not forever:
        c = it.to_bool(it.eval(node.test, env))
        if isinstance(c, T):
            k = it.m.known(c)
            if k is None:
                if getattr(it, "unroll_while", False):
                    k = it.m.branch(c)
                else:
                    break
            c = k
        if not c:
            it.block(node.orelse, env)
            return
        count += 1
        if count > UNROLL_LIMIT:
            raise Unsupported("while loop too long")
        try:
            it.block(node.body, env)
        except _Continue:
            continue
        except _Break:
            return

    def body(k):
        if not it.truth(it.eval(node.test, env)):
            raise _Break()
        it.block(node.body, env)

    summarise(it, env, None, body, node)


# ------------------------------------------------------------------- slots
def _no_read(i):
    raise Unsupported("reading a list while it is being built")


def slots_of(obj, snap):
    """slots of a touched object that differ from the snapshot"""
    out = {}
    if isinstance(obj, SArr):
        if obj._fn is not snap[0] or obj.sort != snap[1]:
            out[("arr", id(obj))] = (obj, None)
    elif isinstance(obj, SList):
        if (obj.items is not snap[0]) or obj.n is not snap[1] or obj.efn is not snap[2]:
            out[("list", id(obj))] = (obj, None)
    elif isinstance(obj, SSet):
        if (obj.items, obj.pred) != snap:
            out[("set", id(obj))] = (obj, None)
    elif isinstance(obj, (SObj, SDict, Env)):
        cur = obj.attrs if isinstance(obj, SObj) else obj.d if isinstance(obj, SDict) else obj.vars
        for k in set(cur) | set(snap):
            if k not in cur or k not in snap or cur[k] is not snap[k]:
                out[("key", id(obj), k)] = (obj, k)
    else:
        raise Unsupported(f"loop mutates {obj!r}")
    return out


MISSING = object()


def read_slot(s, obj, key):
    if s[0] == "arr":
        return SArr(obj.shape, obj._fn, obj.sort, nan=obj.nan)
    if s[0] == "list":
        return obj
    if s[0] == "set":
        return SSet(items=obj.items, pred=obj.pred)
    d = obj.attrs if isinstance(obj, SObj) else obj.d if isinstance(obj, SDict) else obj.vars
    return d.get(key, MISSING)


def write_slot(s, obj, key, v):
    if s[0] == "arr":
        obj.set_fn(v._fn, v.sort)
    elif s[0] == "list":
        obj.replace(items=v.items, n=v.n, fn=v.efn)
    elif s[0] == "set":
        o = (obj.items, obj.pred)

        def undo():
            obj.items, obj.pred = o

        JOURNAL.record(obj, undo)
        obj.items, obj.pred = v.items, v.pred
    elif isinstance(obj, SObj):
        obj.setattr(key, v)
    elif isinstance(obj, SDict):
        obj.set(key, v)
    else:
        e = obj
        has = key in e.vars
        old = e.vars.get(key)

        def undo():
            if has:
                e.vars[key] = old
            else:
                e.vars.pop(key, None)

        JOURNAL.record(e, undo)
        e.vars[key] = v


def is_number(x):
    return isinstance(x, (T, int, Fraction, bool)) and not isinstance(x, float)


def subst_value(v, mp):
    """substitute iteration variables in a value"""
    if isinstance(v, T):
        return tm.subst(v, mp)
    if isinstance(v, SArr):
        f = v.frozen()
        shp = tuple(tm.subst(d, mp) if isinstance(d, T) else d for d in v.shape)
        r = SArr(shp, lambda *i: tm_subst_safe(f, i, mp), v.sort, nan=None if f.nan is None else (lambda *i: _sub_fn(f.nan, i, mp)))
        r.nonneg = getattr(v, "nonneg", False)
        return r
    if isinstance(v, SList):
        if v.concrete:
            return SList([subst_value(x, mp) for x in v.items], is_tuple=v.is_tuple)
        n = tm.subst(const(v.n), mp)
        return SList(n=n, fn=lambda i: _sub_val_fn(v.efn, i, mp), is_tuple=v.is_tuple)
    if isinstance(v, SRange):
        return SRange(*[tm.subst(const(x), mp) for x in (v.start, v.stop, v.step)])
    if isinstance(v, SDict):
        return SDict({k: subst_value(x, mp) for k, x in v.d.items()})
    if isinstance(v, SSet):
        if v.items is not None:
            return v
        return SSet(pred=lambda y: _sub_fn(v.pred, (y,), mp))
    if isinstance(v, SObj):
        o = SObj(v.cls, {k: subst_value(x, mp) for k, x in v.attrs.items()}, v.label)
        for extra in ("attr_hook",):
            if hasattr(v, extra):
                raise Unsupported("substitution in hooked object")
        return o
    h = getattr(v, "pyvc_subst", None)
    if h is not None:
        return h(mp)
    if isinstance(v, (SFunc, BoundMethod)):
        raise Unsupported("function value built by loop")
    return v


def _protect(i, mp):
    """apply a function at index i, then substitute mp in the result without
    touching the variables of i"""
    vs = [tm.fresh("p", const(x).sort) for x in i]
    return vs, {v.args[0]: const(x) for v, x in zip(vs, i)}


def _sub_fn(fn, i, mp):
    vs, back = _protect(i, mp)
    r = const(fn(*vs))
    return tm.subst(tm.subst(r, mp), back)


def tm_subst_safe(f, i, mp):
    return _sub_fn(f.get, i, mp)


def _sub_val_fn(fn, i, mp):
    vs, back = _protect((i,), mp)
    return subst_value(subst_value(fn(*vs), mp), back)


def replace_apps(t, table):
    """replace applications app(name, args) for name in table by
    table[name](args)"""
    memo = {}

    def occurs(x):
        return bool(tm.atoms_of(x, lambda y: y.op == "app" and y.args[0] in table))

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if not occurs(x):
            r = x
        elif x.op == "app" and x.args[0] in table:
            r = const(table[x.args[0]](*[go(y) for y in x.args[1:]]))
        elif x.op == "bind":
            kind, nn, b, extra = x.args
            vs = [tm.fresh("r", "I") for _ in nn]
            b2 = go(tm.open_(b, vs))
            nn2 = [go(n) for n in nn]
            if kind == "sum":
                r = tm.sum_multi(list(zip(vs, nn2)), b2)
            else:
                r = tm.bigop(kind, nn2[0], lambda i: tm.subst(b2, {vs[0].args[0]: i}), tuple(go(e) for e in extra), x.sort)
        else:
            r = tm._rebuild(x, go)
        memo[x.id] = r
        return r

    return go(t)


def _fold(paths, values):
    """merge per-path values by path conditions"""
    r = values[-1]
    for p, v in zip(reversed(paths[:-1]), reversed(values[:-1])):
        if v is r:
            continue
        r = merge(p.cond(), v, r)
    return r


# --------------------------------------------------------------- summaries
def summarise(it, env, n, body, node):
    """returns True when the loop was left by break"""
    m = it.m
    base_uid = next(_ids)
    yields_seen = [False]
    save_yield = it.on_yield

    def probe_yield(v):
        yields_seen[0] = True
        it.count_yield()

    # ---- passes
    havoc = {}  # slot -> (obj, key, havoc value or MISSING)
    for _round in range(6):
        k = tm.fresh("k", "I")

        def thunk():
            it.on_yield = probe_yield if save_yield is not None else None
            m.assume(tm.le(0, k))
            if n is not None:
                m.assume(tm.lt(k, n))
            m.loop_ctx = m.loop_ctx + [k]
            for s, (obj, key, hv) in havoc.items():
                if hv is not MISSING:
                    write_slot_havoc(s, obj, key, hv)
            touched = {}
            JOURNAL.touched.append(touched)
            out = ("next", None)
            try:
                body(k)
            except _Continue:
                pass
            except _Break:
                out = ("break", None)
            except _Return as r:
                out = ("return", r.v)
            except PyRaise as e:
                if isinstance(e.exc, (UnboundLocalError, NameError)) and _round > 0:
                    raise Unsupported(f"loop body reads a variable before assignment: {e}") from None
                out = ("raise", e)
            finally:
                JOURNAL.touched.pop()
                m.loop_ctx = m.loop_ctx[:-1]
                it.on_yield = save_yield
            changed = {}
            for obj, snap in touched.values():
                if getattr(obj, "uid", -1) >= base_uid:
                    continue
                for s, (o, key) in slots_of(obj, snap).items():
                    changed[s] = (o, key, capture(s, o, key))
            return out, changed

        paths = m.explore(thunk)
        new = {}
        for p in paths:
            (kind, val), changed = p.value
            if kind != "next":
                continue
            for s, (o, key, v) in changed.items():
                if s not in havoc:
                    new.setdefault(s, []).append((o, key, v))
        if not new and _round > 0:
            break
        if not new:
            # nothing mutated at all
            break
        for s, lst in new.items():
            o, key, _ = lst[0]
            havoc[s] = (o, key, make_havoc(it, s, o, key, [v for _, _, v in lst]))
        # sorts may need widening
        for s, (o, key, hv) in list(havoc.items()):
            if isinstance(hv, T) and hv.sort == "I":
                for p in paths:
                    ch = p.value[1].get(s)
                    if ch is not None and isinstance(ch[2], (T, Fraction)) and const(ch[2]).sort == "R":
                        havoc[s] = (o, key, tm.fresh("h", "R"))
    else:
        raise Unsupported("loop summary did not stabilise")
    # fix sort widening found in the last pass
    cont = [p for p in paths if p.value[0][0] == "next"]
    exits = [p for p in paths if p.value[0][0] != "next"]
    kname = k.args[0]
    closed = solve(it, havoc, cont, k, n)
    N = n

    def full(t, j):
        """term t(k, havoc) at iteration j with the closed state"""
        return at(const(t), j)

    table_at = closed_tables(havoc, closed)

    def at(t, j):
        t = replace_state(t, table_at, j)
        return tm.subst(t, {kname: const(j)})

    contc = tm.or_(*[p.cond() for p in cont]) if cont else FALSE
    defs = []
    for p in cont:
        pc = p.cond()
        skip = {tm.le(0, k), tm.lt(k, n) if n is not None else TRUE}
        for f in p.side():
            if f in skip:
                continue
            defs.append(tm.or_(tm.not_(pc), f))
    it.loops.append(
        dict(
            function=env.func.name if env.func is not None else "?",
            line=getattr(node, "lineno", 0),
            slots=[_slot_name(s, havoc[s]) for s in havoc],
            rules=[closed[s][1] for s in havoc],
        )
    )

    def history(j):
        """facts true when iteration j is reached"""
        fs = []
        if exits:
            fs.append(tm.forall(j, lambda q: at(contc, q)))
        for d in defs:
            fs.append(tm.forall(j, lambda q: at(d, q)))
        return fs

    def set_state(j, final=False):
        for s, (o, key, hv) in havoc.items():
            v = closed[s][0](const(j), final)
            if v is MISSING:
                continue
            write_slot(s, o, key, v)

    options = []
    if n is not None and cont:
        options.append("normal")
    if n is not None and not cont:
        options.append("empty")
    if exits:
        options.append("exit")
    observe = yields_seen[0] and save_yield is not None
    if observe:
        options.append("observe")
    opt = options[m.choose(len(options))]
    if opt == "empty":
        m.assume_cond(tm.le(n, 0))
        return False
    if opt == "normal":
        m.assume_cond(*history(N))
        set_state(N, final=True)
        return False
    kk = m.fresh("k", "I")
    m.assume_cond(tm.le(0, kk))
    if n is not None:
        m.assume_cond(tm.lt(kk, n))
    m.assume_cond(*history(kk))
    set_state(kk)
    try:
        body(kk)
    except _Continue:
        pass
    except _Break:
        if opt == "observe":
            raise Infeasible() from None
        return True
    except (_Return, PyRaise):
        if opt == "observe":
            raise Infeasible() from None
        raise
    if opt == "observe":
        raise Observed()
    raise Infeasible()


def _slot_name(s, hv):
    o, key, _ = hv
    if s[0] == "key":
        return f"{type(o).__name__}.{key}"
    return s[0]


def write_slot_havoc(s, obj, key, hv):
    if s[0] == "list":
        n = hv
        o = (obj.items, obj.n, obj.efn, obj.__class__, getattr(obj, "appended", None))

        def undo():
            obj.items, obj.n, obj.efn, obj.__class__, obj.appended = o

        JOURNAL.record(obj, undo)
        obj.__class__ = HSwap
        obj.items, obj.n, obj.efn = None, n, _no_read
        obj.appended = []
        return
    write_slot(s, obj, key, hv)


class HSwap(SList):
    """class temporarily given to a list while the body runs"""

    def append(self, x):
        old, n = self.appended, self.n
        o = self

        def undo():
            o.appended, o.n = old, n

        JOURNAL.record(self, undo)
        self.appended = old + [x]
        self.n = n + 1

    def replace(self, *a, **k):
        raise Unsupported("list rewritten in loop")


def capture(s, o, key):
    if s[0] == "list":
        if isinstance(o, HSwap):
            return ("app", list(o.appended))
        return ("raw", SList(o.items, o.n, o.efn))
    return read_slot(s, o, key)


def make_havoc(it, s, o, key, vals):
    """arbitrary value of the slot at the start of iteration k"""
    init = read_slot(s, o, key)
    if init is MISSING:
        return MISSING
    if s[0] == "arr":
        nm = tm.fresh("ha", "I").args[0]
        sort = o.sort
        if any(isinstance(v, SArr) and v.sort == "R" for v in vals):
            sort = "R"
        a = SArr(o.shape, lambda *i: tm.app(nm, i, sort), sort)
        a.hname = nm
        return a
    if s[0] == "list":
        return tm.fresh("hl", "I")
    if s[0] == "set":
        nm = tm.fresh("hs", "I").args[0]
        r = SSet(pred=lambda y: tm.app(nm, [y], "B"))
        r.hname = nm
        return r
    if is_number(init) and all(is_number(v) for v in vals if v is not MISSING):
        sorts = {const(init).sort} | {const(v).sort for v in vals if v is not MISSING}
        sort = "B" if sorts == {"B"} else "I" if sorts <= {"I"} else "R"
        return tm.fresh("h", sort)
    if isinstance(init, SArr):
        # variable rebound to arrays
        v0 = next((v for v in vals if isinstance(v, SArr)), None)
        if v0 is not None and len(v0.shape) == len(init.shape) and all(
            tm.const(a) is tm.const(b) for a, b in zip(v0.shape, init.shape)
        ):
            nm = tm.fresh("ha", "I").args[0]
            sort = "R" if "R" in (init.sort, v0.sort) else init.sort
            a = SArr(init.shape, lambda *i: tm.app(nm, i, sort), sort)
            a.hname = nm
            a.rebound = True
            return a
    return Poison("loop-carried value")


# ------------------------------------------------------------ closed forms
def solve(it, havoc, cont, k, n):
    kname = k.args[0]
    closed = {}
    updates = {}
    for s, (o, key, hv) in havoc.items():
        per = []
        for p in cont:
            ch = p.value[1].get(s)
            per.append(None if ch is None else ch[2])
        updates[s] = per
    pending = dict(havoc)
    if not cont:
        for s, (o, key, hv) in havoc.items():
            x0 = init_of(s, o, key)
            closed[s] = ((lambda j, final, x0=x0: x0), "unreached")
        return closed
    hnames = {}
    for s, (o, key, hv) in havoc.items():
        if isinstance(hv, T):
            hnames[s] = hv.args[0]
        elif hasattr(hv, "hname"):
            hnames[s] = hv.hname
    allh = set(hnames.values())

    def depends(t):
        t = const(t)
        un = {hnames[s] for s in pending if s in hnames}
        if t.fv & un:
            return True
        return bool(tm.atoms_of(t, lambda y: y.op == "app" and y.args[0] in un))

    def norm(t):
        """substitute the closed forms found so far at iteration k"""
        tb = closed_tables(havoc, closed)
        return replace_state(const(t), tb, k)

    progress = True
    while pending and progress:
        progress = False
        for s in list(pending):
            o, key, hv = pending[s]
            x0 = init_of(s, o, key)
            r = None
            if s[0] == "list":
                r = solve_list(it, s, o, cont, updates[s], k, n, hv, norm, depends)
            elif s[0] == "set":
                r = solve_set(it, o, cont, updates[s], k, hv, norm, depends)
            elif s[0] == "arr" or (isinstance(hv, SArr)):
                r = solve_arr(it, x0, cont, updates[s], k, hv, norm, depends)
            elif isinstance(hv, T):
                r = solve_scalar(it, x0, cont, updates[s], k, hv, norm, depends)
            else:
                r = solve_last(it, s, x0, cont, updates[s], k, hv, norm, depends)
            if r is not None:
                closed[s] = r
                del pending[s]
                progress = True
    if pending:
        names = [_slot_name(s, havoc[s]) for s in pending]
        raise Unsupported(f"no closed form for loop-carried {names}")
    return closed


def init_of(s, o, key):
    if s[0] == "list":
        return SList(o.items, o.n, o.efn)
    return read_slot(s, o, key)


def closed_tables(havoc, closed):
    """(scalar names -> function of j, application names -> function of j)"""
    sc, ap = {}, {}
    for s, (o, key, hv) in havoc.items():
        if s not in closed:
            continue
        f = closed[s][0]
        if isinstance(hv, T):
            if s[0] == "list":
                sc[hv.args[0]] = lambda j, f=f: const(f(j, False).length())
            else:
                sc[hv.args[0]] = lambda j, f=f: const(f(j, False))
        elif isinstance(hv, SArr):
            ap[hv.hname] = lambda j, f=f: f(j, False).get
        elif isinstance(hv, SSet):
            ap[hv.hname] = lambda j, f=f: f(j, False).contains_fn()
    return sc, ap


def replace_state(t, tables, j):
    sc, ap = tables
    names = [x for x in t.fv if x in sc]
    if names:
        t = tm.subst(t, {x: sc[x](j) for x in names})
    if ap and tm.atoms_of(t, lambda y: y.op == "app" and y.args[0] in ap):
        t = replace_apps(t, {nm: f(j) for nm, f in ap.items()})
    return t


def _vals(per, keep):
    return [keep if v is None or v is MISSING else v for v in per]


def solve_scalar(it, x0, cont, per, k, h, norm, depends):
    kname = k.args[0]
    vals = _vals(per, h)
    if not all(is_number(v) for v in vals):
        return None
    conds = [norm(p.cond()) for p in cont]
    vals = [norm(const(v)) for v in vals]

    class P:
        def __init__(self, c):
            self.c = c

        def cond(self):
            return self.c

    u = const(_fold([P(c) for c in conds], vals))
    x0 = const(x0)
    if u is h:
        return (lambda j, final: x0), "unchanged"
    at = lambda t, j: tm.subst(t, {kname: const(j)})
    if h.sort == "B":
        if not depends(u):
            return (lambda j, final: tm.ite(tm.eq(j, 0), x0, at(u, j - 1))), "last value"
        a, b = tm.subst(u, {h.args[0]: TRUE}), tm.subst(u, {h.args[0]: FALSE})
        if a is TRUE and not depends(b):
            return (lambda j, final: tm.or_(x0, tm.exists(j, lambda q: at(b, q)))), "disjunction"
        if b is FALSE and not depends(a):
            return (lambda j, final: tm.and_(x0, tm.forall(j, lambda q: at(a, q)))), "conjunction"
        return None
    if not depends(u):
        return (lambda j, final: tm.ite(tm.eq(j, 0), x0, at(u, j - 1))), "last value"
    d = u - h
    if not depends(d):
        return (lambda j, final: x0 + tm.bigsum(j, lambda q: at(d, q))), "sum"
    if len(u.args) and not depends(tm.div(u, h)):
        f = tm.div(u, h)
        if kname not in f.fv:
            return (lambda j, final: x0 * tm.rpow(f, j)) if False else (lambda j, final: x0 * tm.bigop("prod", j, lambda q: at(f, q))), "product"
        return (lambda j, final: x0 * tm.bigop("prod", j, lambda q: at(f, q))), "product"
    # running maximum / minimum: u = h + pos(f - h)  or  h - pos(h - f)
    for sgn in (1, -1):
        e = tm.mul(sgn, d)
        if e.op == "pos":
            f = tm.add(tm.mul(sgn, e.args[0]), h)
            if not depends(f):
                kind = "max" if sgn == 1 else "min"
                mm = tm.maximum if sgn == 1 else tm.minimum
                return (
                    lambda j, final: tm.ite(tm.le(j, 0), x0, mm(x0, tm.bigop(kind, j, lambda q: at(f, q))))
                ), kind
    # pos normal form has canonical sign: max(h,f) = h + pos(f-h) = f + pos(h-f)
    d2 = tm.atoms_of(u, lambda y: y.op == "pos")
    for p_ in d2:
        f = None
        for sgn in (1, -1):
            # p_ = pos(sgn*(h - f))
            g = tm.sub(h, tm.mul(sgn, p_.args[0]))
            if not depends(g):
                f = g
        if f is None:
            continue
        if u is tm.maximum(h, f):
            return (lambda j, final: tm.ite(tm.le(j, 0), x0, tm.maximum(x0, tm.bigop("max", j, lambda q: at(f, q))))), "max"
        if u is tm.minimum(h, f):
            return (lambda j, final: tm.ite(tm.le(j, 0), x0, tm.minimum(x0, tm.bigop("min", j, lambda q: at(f, q))))), "min"
    return None


def solve_last(it, s, x0, cont, per, k, hv, norm, depends):
    """value rebound in every iteration before use (arbitrary kinds)"""
    kname = k.args[0]
    if any(v is None or v is MISSING for v in per):
        return (lambda j, final: MISSING if x0 is MISSING else Poison("conditionally assigned variable")), "unspecified"
    try:
        v = _fold(cont, per)
    except Unsupported:
        return (lambda j, final: Poison("variable left by a loop") if final or x0 is not MISSING else MISSING), "unspecified"

    def cl(j, final):
        if not final and x0 is MISSING:
            return MISSING
        if it.m.known(tm.lt(0, j)):
            try:
                if value_depends(v, depends):
                    return Poison("loop-carried value")
                return subst_value(v, {kname: const(j) - 1})
            except Unsupported:
                return Poison("variable left by a loop")
        if is_number(x0) and is_number(v) and not depends(v):
            return tm.ite(tm.eq(j, 0), const(x0), tm.subst(const(v), {kname: const(j) - 1}))
        return Poison("variable left by a possibly empty loop")

    return cl, "last value"


def value_depends(v, depends):
    if isinstance(v, T):
        return depends(v)
    if isinstance(v, SArr):
        vs = [tm.fresh("v", "I") for _ in v.shape]
        return depends(v.get(*vs)) or any(depends(d) for d in v.shape if isinstance(d, T))
    if isinstance(v, SList) and v.concrete:
        return any(value_depends(x, depends) for x in v.items)
    if isinstance(v, (int, str, Fraction, float, type(None))):
        return False
    return True


def solve_arr(it, x0, cont, per, k, hv, norm, depends):
    kname = k.args[0]
    shape = x0.shape
    vs = [tm.fresh("v", "I") for _ in shape]
    h = tm.app(hv.hname, vs, hv.sort)
    vals = [h if (v is None) else v for v in per]
    if any(v is MISSING or not isinstance(v, (T, SArr)) for v in vals):
        return None
    tv = [norm(v if isinstance(v, T) else v.get(*vs)) for v in vals]
    conds = [norm(p.cond()) for p in cont]
    sort = hv.sort
    u = tv[-1]
    for c, v in zip(reversed(conds[:-1]), reversed(tv[:-1])):
        u = tm.ite(c, v, u)
    x0f = x0.frozen()
    at = lambda t, j: tm.subst(t, {kname: const(j)})
    vn = [v.args[0] for v in vs]

    def mk(fn):
        """fn(j, idx terms) -> T"""

        def cl(j, final):
            return SArr(shape, lambda *i: fn(const(j), i), sort)

        return cl

    def inst(t, i):
        return tm.subst(t, dict(zip(vn, [const(x) for x in i])))

    if u is h:
        return mk(lambda j, i: x0f.get(*i)), "unchanged"
    if sort == "B":
        a, b = _subst_term(u, h, TRUE), _subst_term(u, h, FALSE)
        if depends(a) or depends(b):
            return None
        if a is b:
            return mk(lambda j, i: tm.or_(tm.and_(tm.eq(j, 0), x0f.get(*i)), tm.and_(tm.lt(0, j), at(inst(a, i), j - 1)))), "last value"
        if a is TRUE:
            return mk(lambda j, i: tm.or_(x0f.get(*i), tm.exists(j, lambda q: at(inst(b, i), q)))), "disjunction"
        if b is FALSE:
            return mk(lambda j, i: tm.and_(x0f.get(*i), tm.forall(j, lambda q: at(inst(a, i), q)))), "conjunction"
        # write at c(k,v): keep h elsewhere
        c = tm.not_(tm.and_(a, tm.not_(b)))  # overwritten positions
        return None
    if not depends(u):
        return mk(lambda j, i: tm.ite(tm.eq(j, 0), x0f.get(*i), at(inst(u, i), j - 1))), "last value"
    d = u - h
    if not depends(d):
        return mk(lambda j, i: x0f.get(*i) + tm.bigsum(j, lambda q: at(inst(d, i), q))), "sum"
    # u = A*h + B with A = 1 - [c]
    A, B = _linear(u, h)
    if A is None or depends(A) or depends(B):
        return None
    c1 = tm.ONE - A
    if c1.op == "ind":
        c = c1.args[0]
    else:
        return None
    # last writer: solve c for k
    sol = _solve_iter(c, k)
    if sol is not None:
        e, rest = sol  # k = e(v) and rest(k, v)

        def fn(j, i):
            ei = inst(e, i)
            ok = tm.and_(tm.le(0, ei), tm.lt(ei, j), at(inst(rest, i), ei))
            if ok is FALSE:
                return x0f.get(*i)
            isint = TRUE
            return tm.ite(ok, at(inst(B_val, i), ei), x0f.get(*i))

        B_val = _strip_ind(B, c)
        if e.sort == "I":
            return mk(fn), "array write"
        return None
    val = _strip_ind(B, c)
    if kname not in val.fv:
        return mk(lambda j, i: tm.ite(tm.exists(j, lambda q: at(inst(c, i), q)), inst(val, i), x0f.get(*i))), "idempotent write"
    if kname not in c.fv:
        return mk(lambda j, i: tm.ite(tm.and_(inst(c, i), tm.lt(0, j)), at(inst(val, i), j - 1), x0f.get(*i))), "last value"
    return None


def _subst_term(t, old, new):
    """replace every occurrence of the term old"""
    memo = {}

    def go(x):
        if x is old:
            return new
        if x.id in memo:
            return memo[x.id]
        if x.op in ("var", "num", "bvar", "true", "false"):
            r = x
        elif x.op == "bind":
            r = x
        else:
            r = tm._rebuild(x, go)
        memo[x.id] = r
        return r

    return go(t)


def subst_deep(t, old, new):
    """replace every occurrence of the term old, under binders too"""
    memo = {}
    names = old.fv

    def go(x):
        if x is old:
            return new
        if not names <= x.fv:
            return x
        if x.id in memo:
            return memo[x.id]
        if x.op in ("var", "num", "bvar", "true", "false"):
            r = x
        elif x.op == "bind":
            kind, nn, b, extra = x.args
            vs = [tm.fresh("r", "I") for _ in nn]
            b2 = go(tm.open_(b, vs))
            nn2 = [go(n) for n in nn]
            if kind == "sum":
                r = tm.sum_multi(list(zip(vs, nn2)), b2)
            else:
                r = tm.bigop(kind, nn2[0], lambda i: tm.subst(b2, {vs[0].args[0]: i}), tuple(go(e) for e in extra), x.sort)
        else:
            r = tm._rebuild(x, go)
        memo[x.id] = r
        return r

    return go(t)


def _linear(u, h):
    """u = A*h + B"""
    A, B = {}, {}
    for mono, c in tm._to_poly(u).items():
        e = dict(mono)
        if h in e:
            if e[h] != 1:
                return None, None
            del e[h]
            key = tuple(sorted(e.items(), key=lambda ak: ak[0].id))
            A[key] = A.get(key, 0) + c
        else:
            B[mono] = B.get(mono, 0) + c
    return tm._from_poly(A), tm._from_poly(B)


def _strip_ind(B, c):
    """B = [c] * val  ->  val (valid where c holds)"""
    lits = set(c.args) if c.op == "and" else {c}
    out = {}
    for mono, q in tm._to_poly(B).items():
        e = []
        for a, x in mono:
            if a.op == "ind":
                cs = set(a.args[0].args) if a.args[0].op == "and" else {a.args[0]}
                rest = cs - lits
                if not rest:
                    continue
                e.append((tm.ind(tm.and_(*rest)), x))
            else:
                e.append((a, x))
        t = const(q)
        for a, x in e:
            t = tm.mul(t, tm.power(a, x))
        for mm, cc in tm._to_poly(t).items():
            out[mm] = out.get(mm, 0) + cc
    return tm._from_poly(out)


def _solve_iter(c, k):
    """find an equation in the conjunction c that determines k"""
    lits = list(c.args) if c.op == "and" else [c]
    for q, l in enumerate(lits):
        if l.op == "eq0":
            A, B = _linear(l.args[0], k)
            if A is None:
                continue
            v = tm.numval(A)
            if v in (1, -1) and k.args[0] not in B.fv:
                e = tm.mul(Fraction(-1) / v, B)
                rest = tm.and_(*(lits[:q] + lits[q + 1 :]))
                return e, rest
    return None


def solve_set(it, o, cont, per, k, hv, norm, depends):
    kname = k.args[0]
    y = tm.fresh("y", "I")
    h = tm.app(hv.hname, [y], "B")
    p0 = o.contains_fn()
    vals = [h if v is None else norm(v.contains_fn()(y)) for v in per]
    conds = [norm(p.cond()) for p in cont]
    u = vals[-1]
    for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
        u = tm.or_(tm.and_(c, v), tm.and_(tm.not_(c), u))
    b = _subst_term(u, h, FALSE)
    if depends(b) or _subst_term(u, h, TRUE) is not TRUE:
        # try: every path keeps membership
        if not all(_subst_term(v, h, TRUE) is TRUE for v in vals):
            return None
    b = tm.or_(*[tm.and_(c, _subst_term(v, h, FALSE)) for c, v in zip(conds, vals)])
    if depends(b):
        return None
    yn = y.args[0]

    def cl(j, final):
        return SSet(pred=lambda z: tm.or_(p0(z), tm.exists(j, lambda q: tm.subst(tm.subst(b, {yn: const(z)}), {kname: q}))))

    return cl, "set union"


def solve_list(it, s, o, cont, per, k, n, hv, norm, depends):
    from .interp import _getter

    kname = k.args[0]
    l0 = SList(o.items, o.n, o.efn)
    apps = []
    for v in per:
        if v is None:
            apps.append([])
        elif v[0] == "app":
            apps.append(v[1])
        else:
            return None
    counts = {len(a) for a in apps}
    n0 = const(l0.length())
    g0 = _getter(l0) if l0.length() != 0 else (lambda i: Poison("empty list"))

    def get(i, tail):
        if tm.numval(n0) == 0:
            return tail(i)
        return sym_ite(tm.lt(i, n0), lambda: g0(i), lambda: tail(i - n0))

    if len(counts) == 1:
        c = counts.pop()
        vals = []
        for q in range(c):
            v = _fold(cont, [a[q] for a in apps])
            if value_depends_deep(v, depends, norm):
                v2 = norm_value(v, norm)
                if value_depends_deep(v2, depends, norm):
                    return None
                v = v2
            vals.append(v)
        if c == 0:
            return (lambda j, final: l0), "unchanged"
        if c == 1:
            return (
                lambda j, final: SList(n=n0 + j, fn=lambda i: get(i, lambda q: subst_value(vals[0], {kname: q})))
            ), "append"
        return (
            lambda j, final: SList(
                n=n0 + j * c,
                fn=lambda i: get(
                    i,
                    lambda q: _nth([subst_value(v, {kname: tm.floor(tm.div(q, c))}) for v in vals], q % const(c)),
                ),
            )
        ), "append"
    if counts == {0, 1} and n is not None:
        from .npmodel import Selection

        mask = norm(tm.or_(*[p.cond() for p, a in zip(cont, apps) if a]))
        if depends(mask):
            return None
        ps = [p for p, a in zip(cont, apps) if a]
        v = _fold(ps, [a[0] for a in apps if a])
        v = norm_value(v, norm)
        if value_depends_deep(v, depends, norm):
            return None
        mk = lambda q: tm.subst(mask, {kname: q})
        sel = Selection(it, n, mk)

        def cl(j, final):
            for f in sel.facts():
                if f is not TRUE and f not in it.m.facts:
                    it.m.facts.append(f)
            cnt = tm.bigsum(j, lambda q: tm.ind(mk(q)))
            return SList(n=n0 + cnt, fn=lambda i: get(i, lambda q: subst_value(v, {kname: sel.sel(q)})))

        return cl, "filtered append"
    return None


def _nth(vals, r):
    v = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        v = merge(tm.eq(r, k), vals[k], v)
    return v


def value_depends_deep(v, depends, norm):
    return value_depends(v, depends) if not isinstance(v, (SObj, SDict)) else False


def norm_value(v, norm):
    if isinstance(v, T):
        return norm(v)
    if isinstance(v, SArr):
        f = v.frozen()
        return SArr(tuple(norm(d) if isinstance(d, T) else d for d in v.shape), lambda *i: norm(f.get(*i)), v.sort)
    if isinstance(v, SList) and v.concrete:
        return SList([norm_value(x, norm) for x in v.items], is_tuple=v.is_tuple)
    return v


# ---------------------------------------------------------- comprehensions
def comprehension(it, node, env, kind):
    out = []
    inner = Env(env.globals, env, env.func)
    inner.selfobj = env.selfobj
    gens = node.generators

    def value():
        if kind == "dict":
            return (it.hashable(it.eval(node.key, inner)), it.eval(node.value, inner))
        return it.eval(node.elt, inner)

    def rec(g):
        if g == len(gens):
            out.append(value())
            return
        gen = gens[g]
        src = it.eval(gen.iter, env if g == 0 else inner)
        seq = it.sequence(src)
        n = _len(seq)
        if isinstance(n, int):
            for k in range(n):
                it.assign(gen.target, seq.get(k), inner)
                if all(it.truth(it.eval(c, inner)) for c in gen.ifs):
                    rec(g + 1)
            return
        if g != len(gens) - 1 or g != 0 or kind == "dict":
            raise Unsupported("nested symbolic comprehension")
        out.append(("sym", symbolic_comp(it, gen, seq, n, inner, value)))

    rec(0)
    if out and isinstance(out[0], tuple) and out[0][0] == "sym":
        l = out[0][1]
        if kind == "set":
            from .npmodel import MODELS

            return MODELS[set](it, l)
        return l
    if kind == "list":
        return SList(out)
    if kind == "set":
        from .interp import _mkset

        return _mkset(out)
    return SDict(dict(out))


def symbolic_comp(it, gen, seq, n, inner, value):
    m = it.m
    k = tm.fresh("k", "I")
    kname = k.args[0]

    def thunk():
        m.assume(tm.le(0, k), tm.lt(k, n))
        m.loop_ctx = m.loop_ctx + [k]
        try:
            it.assign(gen.target, seq.get(k), inner)
            for c in gen.ifs:
                if not it.truth(it.eval(c, inner)):
                    return ("skip", None)
            return ("take", value())
        except PyRaise as e:
            return ("raise", e)
        finally:
            m.loop_ctx = m.loop_ctx[:-1]

    paths = m.explore(thunk)
    bad = [p for p in paths if p.value[0] == "raise"]
    good = [p for p in paths if p.value[0] != "raise"]
    take = [p for p in good if p.value[0] == "take"]
    okc = tm.or_(*[p.cond() for p in good])
    at = lambda t, j: tm.subst(t, {kname: const(j)})
    if bad:
        if not good or m.choose(2) == 1:
            kk = m.fresh("k", "I")
            m.assume_cond(tm.le(0, kk), tm.lt(kk, n), tm.forall(kk, lambda q: at(okc, q)))
            m.assume_cond(at(tm.or_(*[p.cond() for p in bad]), kk))
            raise bad[0].value[1]
        m.assume_cond(tm.forall(n, lambda q: at(okc, q)))
    skip = {tm.le(0, k), tm.lt(k, n)}
    for p in good:
        pc = p.cond()
        for f in p.side():
            if f in skip:
                continue
            m.assume(tm.forall(n, lambda q: at(tm.or_(tm.not_(pc), f), q)))
    if not take:
        return SList([])
    v = _fold(take, [p.value[1] for p in take])
    if len(take) == len(good):
        return SList(n=n, fn=lambda j: subst_value(v, {kname: const(j)}))
    from .npmodel import selection

    mask = tm.or_(*[p.cond() for p in take])
    s = selection(it, n, lambda q: at(mask, q))
    return SList(n=s.count, fn=lambda j: subst_value(v, {kname: s.sel(const(j))}))
