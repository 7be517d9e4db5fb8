"""Discharging obligations: normal forms first, then z3 on the abstraction of
the remaining terms together with sound lemma instances."""

from __future__ import annotations

import sys
import time
from fractions import Fraction

try:
    import z3
except ImportError:  # the repository's own venv has no z3; use the tool venv's
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

from . import terms as tm
from .terms import FALSE, TRUE, T, and_, const, fresh, is_num, le, lt, not_, open_, or_

STATS = {"z3_calls": 0, "z3_time": 0.0, "normaliser": 0, "unknown": 0}


_STRINGS = {}


class Exporter:
    def __init__(self, linear=False):
        self.cache = {}
        self.linear = linear  # products of atoms as opaque symbols
        self.nonlinear = False
        self.memo = {}
        self.funs = {}
        self.side = []  # z3 facts
        self.bound = {}  # var name -> z3 var (quantified)
        self.opaque = {}
        self.done_side = set()

    def formula(self, f):
        """(z3 formula, side facts, nonlinear) of a closed formula, cached"""
        r = self.cache.get(f.id)
        if r is None:
            save = self.side, self.done_side, self.memo, self.nonlinear
            self.side, self.done_side, self.memo, self.nonlinear = [], set(), {}, False
            e = self.term(f)
            r = self.cache[f.id] = (e, self.side, self.nonlinear)
            self.side, self.done_side, self.memo, self.nonlinear = save
        return r

    def sort(self, s):
        if s in ("I", "U"):
            return z3.IntSort()  # "U": names, compared for equality only
        if s == "R":
            return z3.RealSort()
        if s == "B":
            return z3.BoolSort()
        return z3.DeclareSort(s)

    def real(self, t):
        e = self.term(t)
        if e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def _opq(self, t, kind):
        """z3 expression for an opaque atom, as a function of the quantified
        variables it contains"""
        bs = sorted(n for n in t.fv if n in self.bound)
        if bs:
            a = tm.abstract(t, bs)
            key = ("f", a.id)
            if key not in self.opaque:
                self.opaque[key] = z3.Function(
                    f"{kind}_{a.id}", *[self.bound[b].sort() for b in bs], self.sort(t.sort)
                )
            return self.opaque[key](*[self.bound[b] for b in bs]), True
        key = ("c", t.id)
        if key not in self.opaque:
            self.opaque[key] = z3.Const(f"{kind}_{t.id}", self.sort(t.sort))
        return self.opaque[key], False

    def term(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        r = self._term(t)
        if not any(n in self.bound for n in t.fv):
            self.memo[t.id] = r
        return r

    def _term(self, t):
        op, a = t.op, t.args
        if op == "num":
            v = a[0]
            if v.denominator == 1:
                return z3.IntVal(v.numerator)
            return z3.RealVal(f"{v.numerator}/{v.denominator}")
        if op == "ustr":
            return z3.IntVal(_STRINGS.setdefault(a[0], len(_STRINGS)))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            if a[0] in self.bound:
                return self.bound[a[0]]
            return z3.Const(a[0], self.sort(t.sort))
        if op == "app":
            args = [self.term(x) for x in a[1:]]
            if not args:
                return z3.Const(a[0], self.sort(t.sort))
            key = (a[0], tuple(x.sort().name() for x in args), t.sort)
            f = self.funs.get(key)
            if f is None:
                f = z3.Function("/".join((a[0],) + key[1]), *[x.sort() for x in args], self.sort(t.sort))
                self.funs[key] = f
            return f(*args)
        if op == "poly":
            return self._poly(t)
        if op == "ind":
            return z3.If(self.term(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "pos":
            x = self.term(a[0])
            return z3.If(x > 0, x, 0 if x.sort() == z3.IntSort() else z3.RealVal(0))
        if op == "itu":
            return z3.If(self.term(a[0]), self.term(a[1]), self.term(a[2]))
        if op == "le0":
            return self._cmp(a[0], "le")
        if op == "lt0":
            return self._cmp(a[0], "lt")
        if op == "eq0":
            return self._cmp(a[0], "eq")
        if op == "equ":
            return self.term(a[0]) == self.term(a[1])
        if op == "not":
            return z3.Not(self.term(a[0]))
        if op == "and":
            return z3.And(*[self.term(x) for x in a])
        if op == "or":
            return z3.Or(*[self.term(x) for x in a])
        if op == "sqrt":
            e, q = self._opq(t, "sqrt")
            x = self.real(a[0])
            if not q and t.id not in self.done_side:
                self.done_side.add(t.id)
                self.side.append(z3.And(e >= 0, z3.Implies(x >= 0, e * e == x), z3.Implies(x > 0, e > 0)))
            return e
        if op in ("exp", "rpow"):
            e, q = self._opq(t, op)
            if not q and t.id not in self.done_side:
                self.done_side.add(t.id)
                self.side.append(e > 0)
                if op == "exp":
                    x = self.real(a[0])
                    self.side.append(z3.And(z3.Implies(x > 0, e > 1), z3.Implies(x < 0, e < 1), z3.Implies(x == 0, e == 1)))
            return e
        if op == "log":
            e, q = self._opq(t, "log")
            return e
        if op == "divzero":
            return z3.Const("divzero", z3.RealSort())
        if op == "floor":
            e, q = self._opq(t, "floor")
            if not q and t.id not in self.done_side:
                self.done_side.add(t.id)
                num, den = split_fraction(a[0])
                if den is not tm.ONE:
                    n_, d_ = self.term(num), self.term(den)
                    if n_.sort() != d_.sort() or n_.sort() == z3.RealSort():
                        er = z3.ToReal(e)
                        n_, d_ = self.real(num), self.real(den)
                    else:
                        er = e
                    self.side.append(z3.Implies(d_ > 0, z3.And(d_ * er <= n_, n_ < d_ * er + d_)))
                    self.side.append(z3.Implies(d_ < 0, z3.And(d_ * er >= n_, n_ > d_ * er + d_)))
                else:
                    x = self.real(a[0])
                    self.side.append(z3.And(z3.ToReal(e) <= x, x < z3.ToReal(e) + 1))
            return e
        if op == "bind":
            kind, ns, body, extra = a
            if kind in ("all", "any"):
                v = fresh("q", "I")
                zv = z3.Int(v.args[0])
                self.bound[v.args[0]] = zv
                try:
                    b = open_(body, [v])
                    zb = self.term(b)
                finally:
                    del self.bound[v.args[0]]
                n = self.term(ns[0])
                rng = z3.And(zv >= 0, zv < n)
                return z3.ForAll([zv], z3.Implies(rng, zb)) if kind == "all" else z3.Exists([zv], z3.And(rng, zb))
            e, q = self._opq(t, kind)
            return e
        if op == "bvar":
            raise RuntimeError("dangling bvar")
        raise NotImplementedError(op)

    def _mono(self, m):
        num, den, conds = [], [], []
        for x, e in m:
            if x.op == "ind" and e > 0:
                conds.append(self.term(x.args[0]))
                continue
            z = self.term(x)
            (num if e > 0 else den).extend([z] * abs(e))
        allint = not den and all(z.sort() == z3.IntSort() for z in num)
        return num, den, conds, allint

    def _prod(self, zs, real):
        if not zs:
            return z3.RealVal(1) if real else z3.IntVal(1)
        zs = [z3.ToReal(z) if real and z.sort() == z3.IntSort() else z for z in zs]
        r = zs[0]
        for z in zs[1:]:
            r = r * z
        return r

    def _poly(self, t):
        real = t.sort == "R"
        parts = []
        for m, c in t.args:
            num, den, conds, allint = self._mono(m)
            if den or len(num) > 1:
                self.nonlinear = True
            if self.linear and (den or len(num) > 1):
                pure = tm._from_poly({tuple((a, e) for a, e in m if not (a.op == "ind" and e > 0)): Fraction(1)})
                p, q = self._opq(pure, "prod")
                if not q and ("prod", pure.id) not in self.done_side:
                    self.done_side.add(("prod", pure.id))
                    self.side.append(z3.Implies(z3.And(*[z >= 0 for z in num + den]), p >= 0))
                    if all(e % 2 == 0 for a, e in m):
                        self.side.append(p >= 0)
                if real and p.sort() == z3.IntSort():
                    p = z3.ToReal(p)
            else:
                p = self._prod(num, real)
                if den:
                    p = p / self._prod(den, True)
            if c != 1:
                cv = z3.RealVal(f"{c.numerator}/{c.denominator}") if real else z3.IntVal(c.numerator)
                p = cv * p
            if conds:
                p = z3.If(z3.And(*conds), p, z3.RealVal(0) if real else z3.IntVal(0))
            parts.append(p)
        return z3.Sum(parts) if len(parts) > 1 else parts[0]

    def _cmp(self, p, kind):
        # clear a common integer denominator for pure-int comparisons
        pos_, neg = {}, {}
        d = tm._to_poly(p)
        den = 1
        from math import gcd

        for c in d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        for m, c in d.items():
            (pos_ if c > 0 else neg)[m] = abs(c) * den
        l = self.term(tm._from_poly(pos_))
        r = self.term(tm._from_poly(neg))
        if l.sort() != r.sort():
            l = z3.ToReal(l) if l.sort() == z3.IntSort() else l
            r = z3.ToReal(r) if r.sort() == z3.IntSort() else r
        return {"le": l <= r, "lt": l < r, "eq": l == r}[kind]


_EXPORTERS = {True: Exporter(True), False: Exporter(False)}


def split_fraction(p):
    """p = num/den with den a product of atoms common to all monomials"""
    d = tm._to_poly(p)
    den = {}
    for m in d:
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
    c = 1
    from math import gcd

    for v in d.values():
        c = c * v.denominator // gcd(c, v.denominator)
    if not den and c == 1:
        return p, tm.ONE
    dt = const(c)
    for a, e in den.items():
        dt = tm.mul(dt, tm.power(a, e))
    return tm.mul(p, dt), dt


# ---------------------------------------------------------------------------
class Result:
    def __init__(self, status, how, detail="", time_s=0.0):
        self.status = status  # 'proved' | 'refuted' | 'unknown'
        self.how = how
        self.detail = detail
        self.time_s = time_s
        self.model = None
        self.nonlinear = False

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return f"<{self.status} by {self.how} {self.time_s:.2f}s {self.detail[:200]}>"


def _flatten(fs):
    out = []
    st = list(fs)
    while st:
        f = st.pop(0)
        f = const(f)
        if f.op == "and":
            st = list(f.args) + st
        elif f is not TRUE:
            out.append(f)
    return out


def _skolem(f):
    """open top-level existentials"""
    while f.op == "bind" and f.args[0] == "any":
        v = fresh("sk", "I")
        n = f.args[1][0]
        f = and_(le(0, v), lt(v, n), open_(f.args[2], [v]))
    return f


def _skolem_deep(f):
    """skolemise existentials in positive positions (through and/or)"""
    if f.op == "bind" and f.args[0] == "any":
        return _skolem_deep(_skolem(f))
    if f.op == "and":
        return and_(*[_skolem_deep(x) for x in f.args])
    if f.op == "or":
        return or_(*[_skolem_deep(x) for x in f.args])
    return f


class Pool:
    """ground terms available for instantiation: index arguments by function and
    position, and loop/skolem variables"""

    def __init__(self):
        self.seen = set()
        self.by = {}
        self.vars = {}

    def add(self, fs):
        for f in fs:
            self.visit(f)

    def visit(self, t):
        if t.id in self.seen:
            return
        self.seen.add(t.id)
        if t.op == "app":
            for k, x in enumerate(t.args[1:]):
                if x.sort == "I" and x.lb == 0:
                    self.by.setdefault((t.args[0], k), {})[x] = None
                    self.by.setdefault("*", {})[x] = None
        elif t.op == "var" and t.sort == "I" and t.args[0].startswith(("sk!", "k!", "i!")):
            self.vars[t] = None
        if t.op == "bind":
            for x in t.args[1] + (t.args[2],) + t.args[3]:
                self.visit(x)
        else:
            for x in tm._children(t.op, t.args):
                self.visit(x)

    def all(self, limit):
        out = dict(self.vars)
        out.update(self.by.get("*", {}))
        return list(out)[:limit]


_TRIG = {}


def _triggers(body):
    """positions (function, argument, offset) at which the bound variable of a
    universal occurs as an index"""
    if body.id in _TRIG:
        return _TRIG[body.id]
    out = set()
    seen = set()

    def go(x, d):
        if x.lb <= d or (x.id, d) in seen:
            return
        seen.add((x.id, d))
        if x.op == "app":
            for k, a in enumerate(x.args[1:]):
                if a.op == "bvar" and a.args[0] == d:
                    out.add((x.args[0], k, None))
                elif a.op == "poly" and a.sort == "I":
                    bv = [m for m, c in a.args if len(m) == 1 and m[0][0].op == "bvar" and m[0][0].args[0] == d and m[0][1] == 1 and c == 1]
                    if len(bv) == 1:
                        rest = tm._from_poly({m: c for m, c in a.args if m is not bv[0]})
                        if rest.lb == 0:
                            out.add((x.args[0], k, rest))
        if x.op == "bind":
            for y in x.args[1] + x.args[3]:
                go(y, d)
            go(x.args[2], d + 1)
        else:
            for y in tm._children(x.op, x.args):
                go(y, d)

    go(body, 0)
    _TRIG[body.id] = out
    return out


def _candidates(body, pool, limit):
    tr = _triggers(body)
    if not tr:
        return pool.all(min(limit, 8))
    out = {}
    for f, k, off in sorted(tr, key=lambda z: (z[0], z[1], z[2].id if z[2] is not None else -1)):
        for x in pool.by.get((f, k), {}):
            out[x if off is None else x - off] = None
    for x in pool.vars:
        out[x] = None
    return list(out)[:limit]


def _universals(f, acc):
    """universal sub-formulas at positive positions inside disjunctions"""
    if f.op == "bind" and f.args[0] == "all":
        acc.append(f)
    elif f.op in ("or", "and"):
        for x in f.args:
            _universals(x, acc)


def _instantiate(f, pool, limit=24):
    """instantiations of the universal(s) contained in f (f may be a
    disjunction containing universals)"""
    if f.op == "bind" and f.args[0] == "all":
        n = f.args[1][0]
        res = []
        for x in _candidates(f.args[2], pool, limit):
            res.append(or_(lt(x, 0), le(n, x), open_(f.args[2], [x])))
        return res
    if f.op == "or":
        for k, x in enumerate(f.args):
            if x.op == "bind" and x.args[0] == "all":
                rest = f.args[:k] + f.args[k + 1 :]
                return [or_(*rest, y) for y in _instantiate(x, pool, limit)]
    return []


def has_universal(f):
    a = []
    _universals(f, a)
    return bool(a)


class Prover:
    """facts: list of boolean terms assumed."""

    def __init__(self, timeout_ms=8000, log=None, scale=1):
        self.timeout_ms = timeout_ms
        self.scale = scale  # of every solver time limit
        self.log = log
        self._sum_cache = {}

    def prove(self, facts, goal, hints=(), depth=0, timeout_ms=None, quant=True):
        t0 = time.time()
        goal = const(goal)
        if goal is TRUE:
            STATS["normaliser"] += 1
            return Result("proved", "normaliser", "", time.time() - t0)
        facts = _flatten(facts)
        if any(f is FALSE for f in facts):
            return Result("proved", "normaliser", "contradictory path", time.time() - t0)
        # split conjunctive goals
        if goal.op == "and":
            how = set()
            for g in goal.args:
                r = self.prove(facts, g, hints, depth, timeout_ms, quant)
                if not r:
                    return r
                how.add(r.how)
            return Result("proved", "+".join(sorted(how)), "", time.time() - t0)
        fs = set(facts)
        if goal in fs:
            STATS["normaliser"] += 1
            return Result("proved", "normaliser", "assumed fact", time.time() - t0)
        # goal: for all -> fresh variable
        if goal.op == "bind" and goal.args[0] == "all":
            v = fresh("sk", "I")
            n = goal.args[1][0]
            return self.prove(facts + [le(0, v), lt(v, n)], open_(goal.args[2], [v]), hints, depth, timeout_ms, quant)
        if goal.op == "or":
            # move negated disjuncts without quantifier to the facts
            neg = [not_(x) for x in goal.args]
        else:
            neg = [not_(goal)]
        res = self._refute(facts, hints, depth, timeout_ms or self.timeout_ms, quant, neg)
        res.time_s = time.time() - t0
        return res

    def consistent(self, facts, timeout_ms=2000):
        """False only if the facts are shown contradictory"""
        facts = _flatten(facts)
        if any(f is FALSE for f in facts):
            return False
        r = self._refute(facts, (), 9, timeout_ms, False)
        return r.status != "proved"

    def satisfiable(self, facts, timeout_ms=4000):
        """True if a model of the (quantifier-free abstraction) was found"""
        r = self._refute(_flatten(facts), (), 9, timeout_ms, False)
        return r.status == "refuted"

    def _rounds(self, ground, univ, seeds, rounds, cap):
        """instantiate the universals on the terms of `seeds` (and of the
        instances obtained)"""
        insts = set(ground)
        out = []
        work = list(univ)
        pool = Pool()
        pool.add(seeds)
        for _round in range(rounds):
            new = []
            nextu = []
            for u in work + (list(univ) if _round else []):
                for g in _instantiate(u, pool):
                    g = _skolem_deep(g)
                    for gg in _flatten([g]):
                        if gg in insts:
                            continue
                        insts.add(gg)
                        if has_universal(gg):
                            nextu.append(gg)
                        else:
                            new.append(gg)
                if len(out) + len(new) > cap:
                    break
            out += new
            pool.add(new)
            work = nextu
            if len(out) > cap or (not new and not nextu):
                break
        return out

    def _refute(self, hyps, hints, depth, timeout_ms, quant, goal=()):
        goal = _flatten([_skolem_deep(h) for h in _flatten(goal)])
        hyps = _flatten([_skolem_deep(h) for h in _flatten(hyps)]) + goal
        if any(h is FALSE for h in hyps):
            STATS["normaliser"] += 1
            return Result("proved", "normaliser")
        hyps = list(hyps) + _flatten(hints)
        hyps, goal = self._clear_denominators(hyps, goal)
        ground = [h for h in hyps if not has_universal(h)]
        univ = [h for h in hyps if has_universal(h)]
        if univ and ground:
            r = self._z3_run(ground, [], min(timeout_ms, 700), True)
            if r.status == "proved":
                return r
            # goal-directed instances first
            seeds = [g for g in goal if not has_universal(g)]
            if seeds:
                near = self._rounds(ground, univ, seeds, 2, 150)
                if any(g is FALSE for g in near):
                    return Result("proved", "normaliser")
                r = self._z3_run(ground + near, [], min(timeout_ms, 1200), True)
                if r.status == "proved":
                    return r
        if univ:
            ground = ground + self._rounds(ground, univ, ground, 3, 600)
        # lemma instances for reductions occurring in ground
        if depth < 2:
            if univ:
                r = self._z3_run(ground, [], min(timeout_ms, 1500), True)
                if r.status == "proved":
                    return r
            ground = ground + self._reduction_lemmas(ground, hyps, depth, goal)
        if any(g is FALSE for g in ground):
            return Result("proved", "normaliser")
        r = self._z3(ground, [], timeout_ms)
        if r.status == "proved" or not univ or not quant:
            return r
        r2 = self._z3(ground, univ, timeout_ms)
        return r2

    def _clear_denominators(self, hyps, goal):
        """multiply comparisons by integer denominators shown positive"""
        bases = {}
        given = set(hyps)
        seen = {}

        def visit(t):
            if t.op == "poly":
                for m, _ in t.args:
                    for a, e in m:
                        if e < 0 and a.op == "floor" and a.lb == 0:
                            bases[a] = None
                        elif e < 0 and a.op == "var" and a.sort == "R" and a not in seen:
                            seen[a] = None
                            if lt(0, a) in given:
                                bases[a] = None
            return False

        for h in hyps:
            tm.atoms_of(h, visit)
        for b in bases:
            plain = [h for h in hyps if not has_universal(h) and not tm.atoms_of(h, lambda t: t.op == "poly" and any(e < 0 for m, _ in t.args for a, e in m))]
            if b.op == "var":
                hyps = [tm.pull_positive(h, b) for h in hyps]
                goal = [tm.pull_positive(h, b) for h in goal]
            elif self._z3_run(plain + [le(b, 0)], [], 700, True).status != "proved":
                continue

            def fix(x):
                p = x.args[0]
                k = max((-e for m, _ in tm._to_poly(p).items() for a, e in m if a is b and e < 0), default=0)
                if not k:
                    return x
                q = tm.mul(p, tm.power(b, k))
                return tm.eq(q, tm.ZERO) if x.op == "eq0" else (le(q, 0) if x.op == "le0" else lt(q, 0))

            hyps = [tm.map_atoms(h, fix) for h in hyps]
            goal = [tm.map_atoms(h, fix) for h in goal]
        return hyps, goal

    def _z3(self, ground, univ, timeout_ms):
        """linear abstraction first, then the full problem"""
        r = self._z3_run(ground, univ, min(timeout_ms, 1500), True)
        if r.status == "proved" or not r.nonlinear:
            return r
        if timeout_ms <= 1500:
            timeout_ms = min(timeout_ms, 250)  # branch feasibility only
        return self._z3_run(ground, univ, timeout_ms, False)

    def _z3_run(self, ground, univ, timeout_ms, linear):
        ex = _EXPORTERS[linear]
        nonlinear = False
        s = z3.Solver()
        s.set("timeout", int(timeout_ms * self.scale))
        t0 = time.time()
        try:
            seen = set()
            for f in list(ground) + list(univ):
                e, side, nl = ex.formula(f)
                nonlinear |= nl
                s.add(e)
                for q in side:
                    k = q.get_id()
                    if k not in seen:
                        seen.add(k)
                        s.add(q)
            c = s.check()
        except z3.Z3Exception as e:
            r = Result("unknown", "z3", f"z3 exception {e}")
            r.nonlinear = True
            return r
        dt = time.time() - t0
        STATS["z3_calls"] += 1
        STATS["z3_time"] += dt
        if c == z3.unsat:
            return Result("proved", "z3", "", dt)
        if c == z3.sat:
            m = s.model()
            r = Result("refuted", "z3", _model_str(m), dt)
            r.model = (m, ex)
            r.nonlinear = nonlinear
            return r
        STATS["unknown"] += 1
        r = Result("unknown", "z3", s.reason_unknown(), dt)
        r.nonlinear = nonlinear
        return r

    # -- lemmas --------------------------------------------------------------
    def _reduction_lemmas(self, ground, hyps, depth, goal=()):
        out = []
        sums, maxs, ords = {}, {}, {}

        def visit(t):
            if t.op == "bind" and t.lb == 0:
                if t.args[0] == "sum":
                    sums[t] = None
                elif t.args[0] == "max":
                    maxs[t] = None
                elif t.args[0] == "ordstat":
                    ords[t] = None
            return False

        for f in ground:
            tm.atoms_of(f, visit)
        base = [h for h in hyps]
        wanted = {}
        for f in goal:
            tm.atoms_of(f, lambda t: wanted.setdefault(t, False) if t in sums else False)
        for s in list(sums)[:12]:
            out += self._sum_sign(s, base, depth, strict=s in wanted)
        if 2 <= len(sums) <= 8 and depth == 0:
            ss = list(sums)
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    if ss[i] not in wanted and ss[j] not in wanted:
                        continue
                    out += self._sum_compare(ss[i], ss[j], base, depth)
            out += self._sum_combinations(ground, ss, wanted, base, depth)
        for s in list(sums)[:24]:
            # one more term, when the longer sum also occurs
            if len(s.args[1]) != 1:
                continue
            m, body = s.args[1][0], s.args[2]
            longer = tm.bigsum(m + 1, lambda i: open_(body, [i]))
            new = {}
            tm.atoms_of(longer, lambda t: new.setdefault(t, False) if t.op == "bind" and t.args[0] == "sum" and t.lb == 0 else False)
            if new and all(t in sums for t in new):
                out.append(or_(lt(m, 0), tm.eq(longer, s + open_(body, [m]))))
        for s in list(maxs)[:6]:
            # m >= f(i) at known indices; attained
            n = s.args[1][0]
            w = fresh("sk", "I")
            out.append(or_(le(n, 0), and_(le(0, w), lt(w, n), tm.eq(open_(s.args[2], [w]), s))))
            pool = Pool()
            pool.add(ground)
            for x in _candidates(s.args[2], pool, 24):
                out.append(or_(lt(x, 0), le(n, x), le(open_(s.args[2], [x]), s)))
        os_ = list(ords)
        for i in range(len(os_)):
            for j in range(len(os_)):
                if i != j and os_[i].args[1] == os_[j].args[1] and os_[i].args[2] is os_[j].args[2]:
                    ki, kj = os_[i].args[3][0], os_[j].args[3][0]
                    out.append(or_(lt(kj, ki), le(os_[i], os_[j])))
        return _flatten(out)

    def _sum_sign(self, s, base, depth, strict=False):
        ns, body = s.args[1], s.args[2]
        vs = [fresh("i", "I") for _ in ns]
        b = open_(body, vs)
        rng = []
        for v, n in zip(vs, ns):
            rng += [le(0, v), lt(v, n)]
        if tm.known_nonneg(b) or self.quick(base + rng, le(0, b), depth):
            if depth == 0 and strict and self.quick(base + rng, lt(0, b), depth):
                return [le(0, s), or_(*[le(n, 0) for n in ns], lt(0, s))]
            return [le(0, s)]
        if self.quick(base + rng, le(b, 0), depth):
            return [le(s, 0)]
        return []

    def _sum_compare(self, s1, s2, base, depth):
        if s1.args[1] != s2.args[1] or any(s.args[2].op == "ind" and tm._has_bind(s.args[2]) for s in (s1, s2)):
            return []
        vs = [fresh("i", "I") for _ in s1.args[1]]
        b1, b2 = open_(s1.args[2], vs), open_(s2.args[2], vs)
        rng = []
        for v, n in zip(vs, s1.args[1]):
            rng += [le(0, v), lt(v, n)]
        out = []
        if self.quick(base + rng, le(b1, b2), depth):
            out.append(le(s1, s2))
        if self.quick(base + rng, le(b2, b1), depth):
            out.append(le(s2, s1))
        return out

    def _sum_combinations(self, ground, sums, wanted, base, depth):
        """compare a sum of the goal with sums that occur added up in a fact"""
        out, tried = [], 0
        for h in ground:
            if h.op not in ("le0", "eq0") or h.args[0].op != "poly":
                continue
            parts = [(m[0][0], c) for m, c in h.args[0].args if len(m) == 1 and m[0][1] == 1 and m[0][0] in sums]
            if not 2 <= len(parts) <= 3 or any(p.args[1] != parts[0][0].args[1] for p, _ in parts):
                continue
            for s in wanted:
                if s.args[1] != parts[0][0].args[1] or any(s is p for p, _ in parts) or tried >= 4:
                    continue
                tried += 1
                vs = [fresh("i", "I") for _ in s.args[1]]
                rng = [f for v, n in zip(vs, s.args[1]) for f in (le(0, v), lt(v, n))]
                mixed = sum((c * open_(p.args[2], vs) for p, c in parts), tm.ZERO)
                total = sum((c * p for p, c in parts), tm.ZERO)
                for k in (1, -1):
                    if self.quick(base + rng, le(k * open_(s.args[2], vs), mixed), depth):
                        out.append(le(k * s, total))
        return out

    def quick(self, facts, goal, depth):
        goal = const(goal)
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        if goal.op == "le0" and tm.known_nonneg(tm.mul(-1, goal.args[0])):
            return True
        r = self.prove([f for f in facts], goal, depth=depth + 1, timeout_ms=1500, quant=False)
        return r.status == "proved"

    def sum_nonneg(self, facts, n, f):
        """lemma: if f(i) >= 0 on 0 <= i < n then sum f >= 0 (returned fact)"""
        v = fresh("i", "I")
        r = self.prove(list(facts) + [le(0, v), lt(v, n)], le(0, f(v)), depth=1)
        if r.status != "proved":
            raise RuntimeError(f"sum_nonneg side condition failed: {r}")
        return le(0, tm.bigsum(n, f))


def _model_str(m):
    try:
        return ", ".join(f"{d.name()}={m[d]}" for d in list(m.decls())[:40])
    except Exception as e:  # pragma: no cover
        return f"model unavailable: {e}"
