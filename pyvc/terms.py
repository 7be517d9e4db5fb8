"""Hash-consed term language with a polynomial normal form.

Arithmetic terms are kept as canonical polynomials (Laurent monomials with
rational coefficients) over atoms.  Binders (sum, max, all, ...) use a locally
nameless representation, so alpha-equivalent terms are the same object and
equality of normal forms is object identity.

Semantics: Int = mathematical integers, Real = mathematical reals.  Division is
total with an unspecified value at zero, except that x/x is simplified to 1, so
every use of the normal form assumes that denominators are non-zero; likewise
sqrt(x)^2 = x assumes x >= 0.  (Definedness is checked separately where a
contract asks for it.)
"""

from __future__ import annotations

import itertools
from fractions import Fraction
from math import gcd

_table: dict = {}
_counter = itertools.count(1)


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "lb", "sh")

    def __init__(self, op, args, sort, fv, lb):
        self.op = op
        self.args = args
        self.sort = sort
        self.id = next(_counter)
        self.fv = fv  # frozenset of free Var nodes' names
        self.lb = lb  # number of enclosing binders needed (0 = locally closed)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)

    # arithmetic operators -------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pow__(self, k):
        return power(self, k)

    def __le__(self, o):
        return le(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __ge__(self, o):
        return le(o, self)

    def __gt__(self, o):
        return lt(o, self)

    def __floordiv__(self, o):
        return floor(div(self, o))

    def __mod__(self, o):
        return sub(self, mul(o, floor(div(self, o))))

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise SymbolicBool(self)


class SymbolicBool(Exception):
    """a symbolic boolean was used where a concrete one is needed"""


def _shape(op, args, sort):
    if op in ("var", "bvar") and sort == "I":
        return hash("index")
    if op == "bvar":
        return hash(("bvar", sort))
    if op == "poly":
        return hash(("poly", sum(hash((sum(hash((a.sh, e)) & 0xFFFFFFFFFFFF for a, e in m), c)) & 0xFFFFFFFFFFFF for m, c in args)))
    if op == "bind":
        kind, ns, body, extra = args
        return hash(("bind", kind, tuple(n.sh for n in ns), body.sh, tuple(e.sh for e in extra)))
    if op in ("and", "or"):
        return hash((op, sum(a.sh & 0xFFFFFFFFFFFF for a in args)))
    return hash((op, *[a.sh if isinstance(a, T) else a for a in args]))


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    fv = frozenset()
    lb = 0
    if op == "var":
        fv = frozenset((args[0],))
    elif op == "bvar":
        lb = args[0] + 1
    elif op == "bind":
        kind, ns, body, extra = args
        s = set(body.fv)
        for x in ns + extra:
            s |= x.fv
            lb = max(lb, x.lb)
        lb = max(lb, body.lb - 1)
        fv = frozenset(s)
    else:
        s = set()
        for x in _children(op, args):
            s |= x.fv
            lb = max(lb, x.lb)
        fv = frozenset(s)
    t = T(op, args, sort, fv, lb)
    t.sh = _shape(op, args, sort)
    _table[key] = t
    return t


def _children(op, args):
    if op == "poly":
        for mono, _ in args:
            for a, _e in mono:
                yield a
    else:
        for a in args:
            if isinstance(a, T):
                yield a


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return _mk("num", (Fraction(v),), "I")
    if isinstance(v, Fraction):
        if v.denominator == 1:
            # keep real-valued sort: integers embed in reals, sort I is fine
            return _mk("num", (v,), "I")
        return _mk("num", (v,), "R")
    if isinstance(v, str):
        return _mk("ustr", (str(v),), "U")
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise ValueError(f"non finite constant {v}")
        return const(Fraction(repr(v)))
    try:
        import numpy as np

        if isinstance(v, np.bool_):
            return const(bool(v))
        if isinstance(v, np.integer):
            return const(int(v))
        if isinstance(v, np.floating):
            return const(float(v))
    except ImportError:
        pass
    raise TypeError(f"cannot make a term from {v!r}")


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")
ZERO = _mk("num", (Fraction(0),), "I")
ONE = _mk("num", (Fraction(1),), "I")

_fresh = itertools.count()


def var(name, sort):
    return _mk("var", (name,), sort) if sort else None


def fresh(prefix, sort):
    return var(f"{prefix}!{next(_fresh)}", sort)


def app(fname, idx, sort):
    """application of an uninterpreted function"""
    return _mk("app", (fname, *[const(i) for i in idx]), sort)


POSITIVE: set = set()  # names of variables / functions declared >= 0 (resp. > 0)


def known_nonneg(a):
    if a.op == "num":
        return a.args[0] >= 0
    if a.op in ("exp", "sqrt", "pos", "ind", "rpow"):
        return True
    if a.op in ("var", "app"):
        return a.args[0] in POSITIVE
    if a.op == "poly":
        return all(c > 0 and all(e % 2 == 0 or known_nonneg(x) for x, e in m) for m, c in a.args)
    if a.op == "bind" and a.args[0] == "sum":
        return known_nonneg(a.args[2])
    return False


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


# --------------------------------------------------------------- polynomials
def _to_poly(t):
    """dict monomial -> Fraction"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    assert t.sort in ("I", "R"), f"arithmetic on {t.sort}: {t}"
    return {((t, 1),): Fraction(1)}


def _from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        ((m, c),) = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0])))
    sort = "I"
    for m, c in items:
        if c.denominator != 1:
            sort = "R"
        for a, e in m:
            if e < 0 or a.sort != "I":
                sort = "R"
    return _mk("poly", items, sort)


def _mkey_id(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def _mkey(m):
    """ordering of monomials that does not depend on which index variable (free
    or bound) occurs in them"""
    return (len(m), sum(hash((a.sh, e)) & 0xFFFFFFFFFFFF for a, e in m), tuple((a.id, e) for a, e in m))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _to_poly(const(t)).items():
            d[m] = d.get(m, 0) + c
    return _from_poly(d)


def sub(a, b):
    return add(a, mul(-1, b))


def _mono_mul(m1, m2):
    """product of monomials; returns a list of (monomial, coef) because some
    atom powers rewrite to polynomials"""
    e = dict(m1)
    for a, k in m2:
        e[a] = e.get(a, 0) + k
    return _mono_norm(e)


def _mono_norm(e):
    """normalise exponents dict -> poly dict"""
    extra = None
    out = {}
    pend = []
    for a, k in e.items():
        if k == 0:
            continue
        if a.op == "ind" and k > 1:
            k = 1
        elif a.op == "sqrt" and (k >= 2 or k <= -2):
            q, r = divmod(k, 2) if k > 0 else (-((-k) // 2), -((-k) % 2))
            pend.append((a.args[0], q))
            k = r
            if k == 0:
                continue
        elif a.op == "pos" and k >= 2:
            # pos(x)^k = x^(k-1) pos(x)
            pend.append((a.args[0], k - 1))
            k = 1
        elif a.op == "poly" and k > 0:
            pend.append((a, k))
            continue
        elif a.op == "exp" and k != 1:
            pend.append((exp(mul(a.args[0], k)), 1))
            continue
        elif a.op == "rpow" and k != 1:
            pend.append((rpow(a.args[0], mul(a.args[1], k)), 1))
            continue
        out[a] = k
    # merge exponentials exp(a)*exp(b) = exp(a+b)
    exps = [a for a in out if a.op == "exp"]
    if len(exps) > 1:
        for a in exps:
            del out[a]
        pend.append((exp(add(*[a.args[0] for a in exps])), 1))
    # merge powers with the same base
    rp = {}
    for a in out:
        if a.op == "rpow":
            rp.setdefault(a.args[0], []).append(a)
    for base, lst in rp.items():
        tot = [a.args[1] for a in lst]
        if base in out:
            tot.append(const(out[base]))
        if len(tot) > 1:
            for a in lst:
                del out[a]
            out.pop(base, None)
            pend.append((rpow(base, add(*tot)), 1))
    # indicator products are conjunctions
    inds = [a for a in out if a.op == "ind"]
    if len(inds) > 1:
        c = and_(*[a.args[0] for a in inds])
        for a in inds:
            del out[a]
        pend.append((ind(c), 1))
    mono = tuple(sorted(out.items(), key=lambda ak: ak[0].id))
    base = {mono: Fraction(1)}
    for t, k in pend:
        base = _poly_mul(base, _to_poly(power(t, k)))
    return base


def _poly_mul(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in _mono_mul(m1, m2).items():
                d[m] = d.get(m, 0) + c1 * c2 * c
    return {m: c for m, c in d.items() if c != 0}


def mul(a, b):
    a, b = const(a), const(b)
    if is_num(a) and is_num(b):
        return const(a.args[0] * b.args[0])
    if b.op == "num":
        a, b = b, a
    if a.op == "num":
        c = a.args[0]
        if c == 1:
            return b
        return _from_poly({m: k * c for m, k in _to_poly(b).items()})
    return _from_poly(_poly_mul(_to_poly(a), _to_poly(b)))


def inv(b):
    b = const(b)
    if b.op == "num":
        if b.args[0] == 0:
            return _mk("divzero", (), "R")
        return const(Fraction(1) / b.args[0])
    p = _to_poly(b)
    if len(p) == 1:
        ((m, c),) = p.items()
        e = {a: -k for a, k in m}
        d = _mono_norm(e)
        return _from_poly({mm: cc / c for mm, cc in d.items()})
    # factor out common monomial content
    atoms = {a for m in p for a, _ in m}
    common = {}
    for a in atoms:
        mn = min(dict(m).get(a, 0) for m in p)
        if mn:
            common[a] = mn
    lead = min(p.items(), key=lambda mc: _mkey(mc[0]))[1]
    if common:
        red = {}
        for m, c in p.items():
            e = dict(m)
            for a, k in common.items():
                e[a] = e.get(a, 0) - k
            mm = tuple(
                sorted(((a, k) for a, k in e.items() if k), key=lambda ak: ak[0].id)
            )
            red[mm] = c
        p2 = red
        lead = min(p2.items(), key=lambda mc: _mkey(mc[0]))[1]
        base = _from_poly({m: c / lead for m, c in p2.items()})
        rest = inv(_from_poly({tuple(sorted(common.items(), key=lambda ak: ak[0].id)): Fraction(1)}))
        return mul(mul(const(Fraction(1) / lead), inv(base)), rest)
    base = _from_poly({m: c / lead for m, c in p.items()})
    return _from_poly({((base, -1),): Fraction(1) / lead})


def div(a, b):
    a, b = const(a), const(b)
    if a is b and not is_num(a):
        return ONE
    r = mul(a, inv(b))
    return _cancel(r)


def _cancel(t):
    """simplify p * (p)^-1 patterns: try exact division when a poly base with
    negative exponent divides the whole expression"""
    if t.op != "poly":
        return t
    bases = {}
    for m, _ in t.args:
        for a, e in m:
            if a.op == "poly" and e < 0:
                bases[a] = min(bases.get(a, 0), e)
    for base in bases:
        # multiply through by base once and see if every monomial w/ base^-1
        # recombines: group the monomials by their base exponent
        withb = {m: c for m, c in t.args if dict(m).get(base, 0) < 0}
        rest = {m: c for m, c in t.args if dict(m).get(base, 0) >= 0}
        num = {}
        for m, c in withb.items():
            e = dict(m)
            e[base] += 1
            mm = tuple(sorted(((a, k) for a, k in e.items() if k), key=lambda ak: ak[0].id))
            num[mm] = num.get(mm, 0) + c
        q = _exact_div(num, _to_poly(base))
        if q is not None:
            d = dict(rest)
            for m, c in q.items():
                d[m] = d.get(m, 0) + c
            return _cancel(_from_poly(d))
    return t


def _exact_div(num, den):
    """polynomial division num/den if exact (lex on monomial key), else None"""
    num = dict(num)
    q = {}
    lead_m, lead_c = max(den.items(), key=lambda mc: _mkey_id(mc[0]))
    steps = 0
    while num:
        steps += 1
        if steps > 60:
            return None
        # find a monomial of num divisible by lead_m
        found = None
        for m, c in sorted(num.items(), key=lambda mc: _mkey_id(mc[0]), reverse=True):
            e = dict(m)
            ok = True
            for a, k in lead_m:
                if e.get(a, 0) < k:
                    ok = False
                    break
                e[a] = e.get(a, 0) - k
            if ok:
                found = (tuple(sorted(((a, k) for a, k in e.items() if k), key=lambda ak: ak[0].id)), c / lead_c)
                break
        if found is None:
            return None
        qm, qc = found
        q[qm] = q.get(qm, 0) + qc
        for m, c in den.items():
            for mm, cc in _mono_mul(m, qm).items():
                num[mm] = num.get(mm, 0) - c * cc * qc
                if num[mm] == 0:
                    del num[mm]
    return q


def power(a, k):
    a = const(a)
    if isinstance(k, Fraction) and k.denominator == 1:
        k = int(k)
    if isinstance(k, float):
        k = Fraction(repr(k))
        if k.denominator == 1:
            k = int(k)
    if isinstance(k, T) and is_num(k):
        return power(a, k.args[0])
    if isinstance(k, Fraction) and k == Fraction(1, 2):
        return sqrt(a)
    if isinstance(k, Fraction) and k == Fraction(-1, 2):
        return inv(sqrt(a))
    if isinstance(k, int):
        if k == 0:
            return ONE
        if k < 0:
            return inv(power(a, -k))
        if is_num(a):
            return const(a.args[0] ** k)
        r = a
        for _ in range(k - 1):
            r = mul(r, a)
        return r
    return rpow(a, const(k))


def rpow(base, ex):
    """base ** ex for real exponent (base > 0 assumed)"""
    base, ex = const(base), const(ex)
    if is_num(ex) and (ex.args[0].denominator == 1 or abs(ex.args[0]) == Fraction(1, 2)):
        return power(base, ex.args[0])
    if is_num(base) and base.args[0] == 1:
        return ONE
    if base.op == "rpow":
        return rpow(base.args[0], mul(base.args[1], ex))
    if base.op == "exp":
        return exp(mul(base.args[0], ex))
    if base.op == "poly" and len(base.args) == 1:
        ((m, c),) = base.args
        if c > 0 and len(m) > 0 and all(known_nonneg(a) for a, _ in m):
            # (c * a * b)^x = c^x a^x b^x for positive a, b
            parts = [rpow(const(c), ex)] if c != 1 else []
            for a, e in m:
                parts.append(rpow(a, mul(ex, e)) if not (e == 1) else _mk("rpow", (a, ex), "R") if a.op not in ("rpow", "exp") else rpow(a, ex))
            r = ONE
            for p in parts:
                r = mul(r, p)
            return r
    if base.op == "poly":
        den = {a for m, _ in base.args for a, e in m if e < 0 and a.op == "poly"}
        if len(den) == 1 and all(e == -1 for m, _ in base.args for a, e in m if a in den):
            # n / d > 0 with n > 0: d > 0
            (d,) = den
            num = ZERO
            for m, c in base.args:
                rest = _from_poly({tuple((a, e) for a, e in m if a is not d): c})
                num = add(num, rest if any(a is d for a, _ in m) else mul(rest, d))
            if num.op != "poly" or len(num.args) == 1:
                if known_nonneg(num):
                    return mul(rpow(num, ex), rpow(d, mul(-1, ex)))
                if known_nonneg(mul(-1, num)):
                    return mul(rpow(mul(-1, num), ex), rpow(mul(-1, d), mul(-1, ex)))
        f, p = _leading_power(base)
        if f is not ONE:
            return mul(rpow(f, ex), _mk("rpow", (p, ex), "R"))
    return _mk("rpow", (base, ex), "R")


def _leading_power(base):
    """a sum of powers as f * p, such that all the multiples of a sum by a power
    give the same p"""
    fs = []
    for m, c in base.args:
        f = ONE
        for a, e in m:
            if a.op in ("rpow", "exp"):
                f = mul(f, power(a, e))
        if f not in fs:
            fs.append(f)
    if fs == [ONE]:
        return ONE, base
    if ONE not in fs:
        fs.append(ONE)
    ps = [(f, mul(base, inv(f))) for f in fs]
    return min(ps, key=lambda x: (len(_to_poly(x[1])), sorted(_mkey(m) for m in _to_poly(x[1]))))


def exp(x):
    x = const(x)
    if x is ZERO:
        return ONE
    if x.op == "log":
        return x.args[0]
    # exp(k*log(b) + r) = b^k * exp(r)
    if x.op == "poly":
        keep = {}
        out = ONE
        ex = {}
        for m, c in x.args:
            logs = [a for a, e in m if a.op == "log" and e == 1]
            if len(logs) == 1:
                rest = tuple((a, e) for a, e in m if a is not logs[0])
                ex.setdefault(logs[0].args[0], {})[rest] = c
            else:
                keep[m] = c
        if ex:
            for b, e in ex.items():
                out = mul(out, rpow(b, _from_poly(e)))
            return mul(out, exp(_from_poly(keep)))
    return _mk("exp", (x,), "R")


def log(x):
    x = const(x)
    if x is ONE:
        return ZERO
    if x.op == "exp":
        return x.args[0]
    if x.op == "rpow":
        return mul(x.args[1], log(x.args[0]))
    if x.op == "poly" and len(x.args) == 1:
        ((m, c),) = x.args
        if c > 0 and m and all(known_nonneg(a) for a, _ in m):
            r = log(const(c)) if c != 1 else ZERO
            for a, e in m:
                r = add(r, mul(e, log(a) if a.op in ("exp", "rpow", "sqrt") else _mk("log", (a,), "R")))
            return r
    if x.op == "sqrt":
        return mul(Fraction(1, 2), log(x.args[0]))
    return _mk("log", (x,), "R")


def sqrt(x):
    x = const(x)
    if x is ZERO or x is ONE:
        return x
    if is_num(x):
        v = x.args[0]
        if v > 0:
            import math

            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    if x.op == "poly":
        if len(x.args) == 1:
            ((m, c),) = x.args
            out = ONE
            restm = []
            if c > 0:
                import math

                n, dn = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and dn * dn == c.denominator:
                    out = const(Fraction(n, dn))
                    c = Fraction(1)
            if c <= 0:
                return _mk("sqrt", (x,), "R")
            for a, e in m:
                if e % 2 == 0 and a.op != "sqrt":
                    # sqrt(a^2k) = |a|^k ; for even k no abs needed
                    b = absval(a) if (e // 2) % 2 and not known_nonneg(a) else a
                    out = mul(out, power(b, e // 2))
                else:
                    restm.append((a, e))
            if not restm and c == 1:
                return out
            base = _from_poly({tuple(restm): c})
            if out is ONE:
                # split into per-atom square roots (atoms assumed >= 0)
                return _sqrt_atoms(base)
            return mul(out, _sqrt_atoms(base))
        # normalise content: sqrt(c*p) = sqrt(c)*sqrt(p) with leading coef 1
        p = dict(x.args)
        lead = min(p.items(), key=lambda mc: _mkey(mc[0]))[1]
        if lead > 0 and lead != 1:
            base = _from_poly({m: c / lead for m, c in p.items()})
            return mul(sqrt(const(lead)), _mk("sqrt", (base,), "R"))
    return _mk("sqrt", (x,), "R")


def _sqrt_atoms(base):
    if base.op == "poly" and len(base.args) == 1:
        ((m, c),) = base.args
        out = ONE
        rest = []
        for a, e in m:
            if known_nonneg(a):
                out = mul(out, power(sqrt(a) if a.op != "poly" else _mk("sqrt", (a,), "R"), e))
            else:
                rest.append((a, e))
        if c > 0 and not rest:
            return mul(out, sqrt(const(c))) if c != 1 else out
        if c > 0 and c != 1:
            out = mul(out, _mk("sqrt", (const(c),), "R"))
            c = Fraction(1)
        base = _from_poly({tuple(rest): c})
        return mul(out, _mk("sqrt", (base,), "R"))
    return _mk("sqrt", (base,), "R")


def floor(x):
    x = const(x)
    if x.sort == "I":
        return x
    if is_num(x):
        return const(x.args[0].numerator // x.args[0].denominator)
    # pull the integral part out
    p = _to_poly(x)
    ip, rp = {}, {}
    for m, c in p.items():
        if c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m):
            ip[m] = c
        else:
            rp[m] = c
    if ip:
        return add(_from_poly(ip), floor(_from_poly(rp)))
    return _mk("floor", (x,), "I")


def ceil(x):
    return mul(-1, floor(mul(-1, x)))


def pos(x):
    """max(0, x)"""
    x = const(x)
    if is_num(x):
        return const(max(Fraction(0), x.args[0]))
    p = _to_poly(x)
    lead = min(p.items(), key=lambda mc: _mkey(mc[0]))[1]
    s = abs(lead)
    base = _from_poly({m: c / s for m, c in p.items()})
    if lead < 0:
        nb = mul(-1, base)
        return mul(s, add(base, pos(nb)))
    if base.op == "pos" or base.op == "ind" or base.op == "sqrt" or base.op == "exp":
        return mul(s, base)
    return mul(s, _mk("pos", (base,), base.sort))


def maximum(a, b):
    a, b = const(a), const(b)
    if a is b:
        return a
    return add(a, pos(sub(b, a)))


def minimum(a, b):
    return mul(-1, maximum(mul(-1, a), mul(-1, b)))


def absval(x):
    x = const(x)
    return sub(mul(2, pos(x)), x)


def ind(c):
    c = const(c)
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return sub(ONE, ind(c.args[0]))
    if c.op in ("le0", "lt0"):
        p = _to_poly(c.args[0])
        lead = min(p.items(), key=lambda mc: _mkey(mc[0]))[1]
        if lead < 0:
            return sub(ONE, ind(not_(c)))
    return _mk("ind", (c,), "I")


def ite(c, a, b):
    c = const(c)
    a = const(a) if not isinstance(a, T) else a
    b = const(b) if not isinstance(b, T) else b
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort not in ("I", "R"):
        return _mk("itu", (c, a, b), a.sort)
    return add(b, mul(ind(c), sub(a, b)))


# ---------------------------------------------------------------- booleans
_CMP = {}


def _cmp_norm(p, strict):
    k = (p.id, strict)
    r = _CMP.get(k)
    if r is None:
        r = _CMP[k] = _cmp_norm1(p, strict)
    return r


def _cmp_norm1(p, strict):
    d = _to_poly(p)
    if not d:
        return FALSE if strict else TRUE
    if set(d) == {()}:
        v = d[()]
        return TRUE if (v < 0 or (v == 0 and not strict)) else FALSE
    allint = all(a.sort == "I" and e > 0 for m in d for a, e in m)
    if allint:
        den = 1
        for c in d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        d = {m: c * den for m, c in d.items()}
        if strict:
            d[()] = d.get((), Fraction(0)) + 1
            strict = False
        g = 0
        for m, c in d.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            c0 = d.get((), Fraction(0))
            # sum g*x + c0 <= 0  <=>  x + ceil(c0/g) <= 0
            d = {m: c / g for m, c in d.items() if m != ()}
            d[()] = Fraction(-((-int(c0)) // g))
    else:
        lead = min((mc for mc in d.items()), key=lambda mc: _mkey(mc[0]))[1]
        s = abs(lead)
        d = {m: c / s for m, c in d.items()}
    t = _from_poly(d)
    if t.op == "num":
        v = t.args[0]
        return TRUE if (v < 0 or (v == 0 and not strict)) else FALSE
    if allint:
        fl = _single_floor(d)
        if fl is not None:
            x, c, k = fl  # c * floor(x) + k <= 0
            return lt(x, 1 - k) if c == 1 else le(k, x)
    r = _cases(t, lambda q: _cmp_norm(q, strict))
    if r is not None:
        return r
    return _mk("lt0" if strict else "le0", (t,), "B")


def _single_floor(d):
    """d = c * floor(x) + k with c = +-1: (x, c, k)"""
    if len(d) > 2:
        return None
    ms = [m for m in d if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or ms[0][0][0].op != "floor" or abs(d[ms[0]]) != 1:
        return None
    return ms[0][0][0].args[0], d[ms[0]], const(d.get((), Fraction(0)))


_HASBIND: dict = {}


def _has_bind(t):
    r = _HASBIND.get(t.id)
    if r is None:
        r = _HASBIND[t.id] = t.op == "bind" or any(_has_bind(x) for x in _children(t.op, t.args))
    return r


def _cases(t, f):
    """case split on conditions that select between floors"""
    if t.op == "ind":
        return None
    if t.op != "poly":
        return None
    inds = {a for m, _ in t.args for a, e in m if a.op == "ind"}
    if inds and len(inds) <= 8 and all(a.op == "ind" for m, _ in t.args for a, e in m) and any(_has_bind(a.args[0]) for a in inds):
        c = min((a.args[0] for a in inds), key=lambda x: (len(x.args) if x.op == "and" else 1, x.id))
        cs = frozenset(c.args if c.op == "and" else (c,))

        def under(x, truth):
            if x is c:
                return TRUE if truth else FALSE
            xs = frozenset(x.args if x.op == "and" else (x,))
            if cs <= xs:
                return and_(*[y for y in x.args if y not in cs]) if truth else FALSE
            return x

        def put(truth):
            out = ZERO
            for m, k in t.args:
                z = const(k)
                for a, e in m:
                    z = mul(z, ind(under(a.args[0], truth)))
                out = add(out, z)
            return out

        return or_(and_(c, f(put(True))), and_(not_(c), f(put(False))))
    for m, _ in t.args:
        if len(m) < 2:
            continue
        i = [a for a, e in m if a.op == "ind"]
        if i and any(a.op == "floor" for a, e in m):
            c = i[0].args[0]
            one, zero = {}, {}
            for mm, k in t.args:
                rest = tuple((a, e) for a, e in mm if a is not i[0])
                one[rest] = one.get(rest, 0) + k
                if len(rest) == len(mm):
                    zero[mm] = zero.get(mm, 0) + k
            return or_(and_(c, f(_from_poly(one))), and_(not_(c), f(_from_poly(zero))))
    return None


FUZZ = False  # concrete runs: comparisons of non-integer numbers are tolerant


def _fuzzy(a, b):
    """sign of a - b up to rounding; None when not two numbers"""
    if not FUZZ:
        return None
    a, b = const(a), const(b)
    if a.op != "num" or b.op != "num":
        return None
    x, y = a.args[0], b.args[0]
    if x.denominator == 1 and y.denominator == 1:
        return (x > y) - (x < y)
    d = float(x - y)
    if abs(d) <= FUZZ * (1e-3 + abs(float(x)) + abs(float(y))):
        return 0
    return 1 if d > 0 else -1


def le(a, b):
    if FUZZ:
        s = _fuzzy(a, b)
        if s is not None:
            return TRUE if s <= 0 else FALSE
    return _cmp_norm(sub(a, b), False)


def lt(a, b):
    if FUZZ:
        s = _fuzzy(a, b)
        if s is not None:
            return TRUE if s < 0 else FALSE
    return _cmp_norm(sub(a, b), True)


def _common_powers(d):
    """powers of a sum with exponents that differ by an integer, as multiples of
    the smallest"""
    low = {}
    for m in d:
        for a, e in m:
            if a.op == "rpow" and a.args[0].op == "poly":
                x = _to_poly(a.args[1])
                c = x.pop((), Fraction(0))
                low.setdefault((a.args[0], _from_poly(x), c % 1), set()).add(c)
    if all(len(v) == 1 for v in low.values()):
        return d
    out = ZERO
    for m, c in d.items():
        t = const(c)
        for a, e in m:
            if a.op == "rpow" and a.args[0].op == "poly":
                x = _to_poly(a.args[1])
                k = x.pop((), Fraction(0))
                rest = _from_poly(x)
                lo = min(low[a.args[0], rest, k % 1])
                t = mul(t, mul(power(a.args[0], int(k - lo)), rpow(a.args[0], add(rest, const(lo)))))
            else:
                t = mul(t, power(a, e))
        out = add(out, t)
    return _to_poly(out)


def eq(a, b):
    a, b = const(a), const(b)
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        return iff(a, b)
    if a.sort not in ("I", "R") or b.sort not in ("I", "R"):
        if a.sort != b.sort or (a.op == "ustr" and b.op == "ustr"):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return _mk("equ", (a, b), "B")
    if FUZZ:
        s = _fuzzy(a, b)
        if s is not None:
            return TRUE if s == 0 else FALSE
    d = _common_powers(_to_poly(sub(a, b)))
    if not d:
        return TRUE
    if set(d) == {()}:
        return FALSE
    lead = min(d.items(), key=lambda mc: _mkey(mc[0]))[1]
    d = {m: c / lead for m, c in d.items()}
    if all(a.sort == "I" and e > 0 for m in d for a, e in m):
        # integer equation: gcd test
        den = 1
        for c in d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        di = {m: int(c * den) for m, c in d.items()}
        g = 0
        for m, c in di.items():
            if m != ():
                g = gcd(g, abs(c))
        if di.get((), 0) % g != 0:
            return FALSE
        fl = _single_floor(d)
        if fl is not None:
            x, c, k = fl
            v = mul(-c, k)
            return and_(le(v, x), lt(x, v + 1))
    t = _from_poly(d)
    r = _cases(t, lambda q: eq(q, ZERO))
    if r is not None:
        return r
    return _mk("eq0", (t,), "B")


def ne(a, b):
    return not_(eq(a, b))


_NOT = {}


def not_(a):
    a = const(a)
    r = _NOT.get(a.id)
    if r is None:
        r = _not(a)
        _NOT[a.id] = r
        _NOT.setdefault(r.id, a) if a.op in ("le0", "lt0", "eq0", "not") else None
    return r


def _not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return _cmp_norm(mul(-1, a.args[0]), True)
    if a.op == "lt0":
        return _cmp_norm(mul(-1, a.args[0]), False)
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "bind" and a.args[0] in ("all", "any"):
        kind, ns, body, extra = a.args
        return _mk("bind", ("any" if kind == "all" else "all", ns, not_(body), extra), "B")
    return _mk("not", (a,), "B")


def and_(*xs):
    out = {}
    for x in xs:
        x = const(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                out[y] = None
        else:
            out[x] = None
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def or_(*xs):
    out = {}
    for x in xs:
        x = const(x)
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                out[y] = None
        else:
            out[x] = None
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _mk("or", tuple(sorted(out, key=lambda t: t.id)), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = const(a), const(b)
    if a is b:
        return TRUE
    return and_(or_(not_(a), b), or_(a, not_(b)))


# ----------------------------------------------------------------- binders
def bvar(depth, j, sort="I"):
    return _mk("bvar", (depth, j), sort)


def _rebuild(t, f):
    """rebuild node applying f to children (not for binders/vars)"""
    op, a = t.op, t.args
    if op == "poly":
        out = ZERO
        acc = {}
        for m, c in a:
            if all(f(x) is x for x, _ in m):
                acc[m] = acc.get(m, 0) + c
                continue
            term = const(c)
            for x, e in m:
                term = mul(term, power(f(x), e))
            for mm, cc in _to_poly(term).items():
                acc[mm] = acc.get(mm, 0) + cc
        return _cancel(_from_poly(acc))
    if op in ("num", "true", "false", "divzero", "ustr"):
        return t
    if op == "app":
        return _mk("app", (a[0], *[f(x) for x in a[1:]]), t.sort)
    ctor = _CTOR.get(op)
    if ctor is None:
        raise NotImplementedError(op)
    return ctor(*[f(x) for x in a])


_CTOR = {
    "sqrt": sqrt,
    "exp": exp,
    "log": log,
    "rpow": rpow,
    "floor": floor,
    "pos": pos,
    "ind": ind,
    "le0": lambda p: _cmp_norm(p, False),
    "lt0": lambda p: _cmp_norm(p, True),
    "eq0": lambda p: eq(p, ZERO),
    "equ": eq,
    "itu": ite,
    "not": not_,
    "and": and_,
    "or": or_,
}


def abstract(t, names):
    """replace the free variables `names` (list) by bound variables of the
    next binder"""
    pos_ = {n: j for j, n in enumerate(names)}
    ns = frozenset(names)
    memo = {}

    def go(x, d):
        if not (x.fv & ns):
            return x
        k = (x.id, d)
        if k in memo:
            return memo[k]
        if x.op == "var":
            r = bvar(d, pos_[x.args[0]], x.sort)
        elif x.op == "bind":
            kind, nn, body, extra = x.args
            r = mkbind(
                kind,
                tuple(go(n, d) for n in nn),
                go(body, d + 1),
                tuple(go(e, d) for e in extra),
                x.sort,
                raw=True,
            )
        else:
            r = _rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r

    return go(t, 0)


def open_(body, terms):
    """instantiate the outermost bound variables of `body` by locally closed
    terms"""
    key = (body.id, tuple(t.id for t in terms))
    r = _OPEN.get(key)
    if r is None:
        r = _open(body, terms)
        if len(_OPEN) > 400000:
            _OPEN.clear()
        _OPEN[key] = r
    return r


_OPEN = {}


def _open(body, terms):
    memo = {}

    def go(x, d):
        if x.lb <= d:
            return x
        k = (x.id, d)
        if k in memo:
            return memo[k]
        if x.op == "bvar":
            r = terms[x.args[1]] if x.args[0] == d else x
        elif x.op == "bind":
            kind, nn, b, extra = x.args
            r = mkbind(
                kind,
                tuple(go(n, d) for n in nn),
                go(b, d + 1),
                tuple(go(e, d) for e in extra),
                x.sort,
                raw=True,
            )
            if kind == "sum" and r.lb == 0:
                r = renorm_sum(r)
        else:
            r = _rebuild(x, lambda y: go(y, d))
        memo[k] = r
        return r

    return go(body, 0)


def subst(t, mapping):
    """substitute free variables (name -> term)"""
    ns = frozenset(mapping)
    memo = {}

    def go(x):
        if not (x.fv & ns):
            return x
        if x.id in memo:
            return memo[x.id]
        if x.op == "var":
            r = mapping[x.args[0]]
        elif x.op == "bind":
            kind, nn, b, extra = x.args
            r = mkbind(
                kind, tuple(go(n) for n in nn), go(b), tuple(go(e) for e in extra), x.sort, raw=True
            )
            if kind == "sum" and r.lb == 0:
                r = renorm_sum(r)
        else:
            r = _rebuild(x, go)
        memo[x.id] = r
        return r

    return go(t)


def pull_positive(t, b):
    """pos(b^k * x) = b^k * pos(x) for an atom b known to be positive"""
    memo = {}

    def go(x):
        if not (x.fv & b.fv):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "var":
            r = x
        elif x.op == "bind":
            kind, nn, body, extra = x.args
            r = mkbind(kind, tuple(go(n) for n in nn), go(body), tuple(go(e) for e in extra), x.sort, raw=True)
            if kind == "sum" and r.lb == 0:
                r = renorm_sum(r)
        else:
            r = _rebuild(x, go)
            if r.op == "pos":
                r = pulled(r)
            elif r.op == "poly":
                r = _rebuild(r, lambda a: pulled(a) if a.op == "pos" else a)
        memo[x.id] = r
        return r

    def pulled(x):
        inner = x.args[0]
        k = min(next((e for a, e in m if a is b), 0) for m in _to_poly(inner))
        return mul(power(b, k), pos(mul(inner, power(b, -k)))) if k else x

    return go(t)


def mkbind(kind, ns, body, extra, sort, raw=False):
    if kind == "all" and (body is TRUE or body is FALSE):
        return TRUE if body is TRUE else le(ns[0], 0)
    if kind == "any" and (body is TRUE or body is FALSE):
        return FALSE if body is FALSE else lt(0, ns[0])
    return _mk("bind", (kind, tuple(ns), body, tuple(extra)), sort)


def renorm_sum(t):
    """re-run sum normalisation on a locally closed sum node"""
    kind, ns, body, extra = t.args
    vs = [fresh("s", "I") for _ in ns]
    b = open_(body, vs)
    return sum_multi(list(zip(vs, ns)), b)


def bigsum(n, f):
    """sum_{i<n} f(i)"""
    n = const(n)
    if is_num(n):
        k = int(n.args[0])
        return add(*[f(const(i)) for i in range(k)]) if k > 0 else ZERO
    v = fresh("s", "I")
    return sum_multi([(v, n)], f(v))


def sum_multi(ranges, body):
    """ranges: list of (Var, n)"""
    body = const(body)
    out = {}
    for m, c in _to_poly(body).items():
        t = _sum_mono(list(ranges), m)
        for mm, cc in _to_poly(t).items():
            out[mm] = out.get(mm, 0) + cc * c
    return _from_poly(out)


def _sum_mono(ranges, mono):
    """sum of a monomial over ranges"""
    names = {v.args[0] for v, _ in ranges}
    # concrete ranges are expanded
    for k, (v, n) in enumerate(ranges):
        if is_num(n):
            rest = ranges[:k] + ranges[k + 1 :]
            b = _from_poly({mono: Fraction(1)})
            tot = ZERO
            for i in range(int(n.args[0])):
                tot = add(tot, sum_multi(rest, subst(b, {v.args[0]: const(i)})) if rest else subst(b, {v.args[0]: const(i)}))
            return tot
    outer = {}
    inner = {}
    for a, e in mono:
        if a.fv & names:
            inner[a] = e
        else:
            outer[a] = e
    # flatten inner sums with positive exponent
    flat = {}
    extra_ranges = []
    changed = False
    for a, e in inner.items():
        if a.op == "bind" and a.args[0] == "sum" and e > 0 and not any(n.fv & names for n in a.args[1]) and len(ranges) + len(extra_ranges) + e * len(a.args[1]) <= 5:
            for _ in range(e):
                vs = [fresh("s", "I") for _ in a.args[1]]
                b = open_(a.args[2], vs)
                extra_ranges += list(zip(vs, a.args[1]))
                flat.setdefault("__b", []).append(b)
            changed = True
        else:
            flat[a] = e
    if changed:
        bs = flat.pop("__b")
        b = _from_poly({tuple(sorted(flat.items(), key=lambda ak: ak[0].id)): Fraction(1)}) if flat else ONE
        for x in bs:
            b = mul(b, x)
        t = sum_multi(ranges + extra_ranges, b)
        om = _from_poly({tuple(sorted(outer.items(), key=lambda ak: ak[0].id)): Fraction(1)}) if outer else ONE
        return mul(om, t)
    # Kronecker deltas: ind(i == e) with i a summation variable
    for a in list(inner):
        if a.op == "ind":
            conj = a.args[0].args if a.args[0].op == "and" else (a.args[0],)
            for c in conj:
                if c.op == "eq0":
                    sol = _solve_for(c.args[0], ranges)
                    if sol is not None:
                        v, e, n = sol
                        # remove v from ranges, substitute, guard 0 <= e < n
                        rest = [(w, m) for w, m in ranges if w is not v]
                        b = _from_poly({mono: Fraction(1)})
                        b = subst(b, {v.args[0]: e})
                        g = and_(le(0, e), lt(e, n))
                        if _trivially_in_range(e, n, rest):
                            g = TRUE
                        b = mul(ind(g), b)
                        return sum_multi(rest, b) if rest else b
    # split off ranges not occurring
    used = set()
    for a in inner:
        used |= a.fv & names
    factor = ONE
    rr = []
    for v, n in ranges:
        if v.args[0] in used:
            rr.append((v, n))
        else:
            factor = mul(factor, n)
    om = _from_poly({tuple(sorted(outer.items(), key=lambda ak: ak[0].id)): Fraction(1)}) if outer else ONE
    om = mul(om, factor)
    if not rr:
        return om
    # connected components
    comps = _components(rr, inner)
    res = om
    for cr, catoms in comps:
        res = mul(res, _canon_sum(cr, catoms))
    return res


def _trivially_in_range(e, n, rest):
    # e is itself a summation variable with the same range
    for w, m in rest:
        if e is w and m is n:
            return True
    return e.op == "var" and e in _index_hint and _index_hint[e] is n


_index_hint: dict = {}


def _solve_for(p, ranges):
    """solve p == 0 for a summation variable: p = +-v + rest (rest free of v)"""
    d = _to_poly(p)
    for v, n in ranges:
        m = ((v, 1),)
        c = d.get(m)
        if c is None or abs(c) != 1:
            continue
        rest = {mm: cc for mm, cc in d.items() if mm != m}
        r = _from_poly({mm: -cc / c for mm, cc in rest.items()})
        if v.args[0] in r.fv:
            continue
        if r.sort != "I":
            continue
        return v, r, n
    return None


def _components(rr, atoms):
    names = [v.args[0] for v, _ in rr]
    parent = {n: n for n in names}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    for a in atoms:
        vs = [n for n in names if n in a.fv]
        for b in vs[1:]:
            parent[find(b)] = find(vs[0])
    groups = {}
    for v, n in rr:
        groups.setdefault(find(v.args[0]), ([], {}))[0].append((v, n))
    for a, e in atoms.items():
        vs = [n for n in names if n in a.fv]
        groups[find(vs[0])][1][a] = e
    return list(groups.values())


_sum_rules = []  # functions (ranges, atoms) -> T | None


def _rule_ordstat(ranges, atoms):
    """sum over all ranks of a function of one order statistic = sum over the
    elements"""
    if len(ranges) != 1 or len(atoms) != 1:
        return None
    (v, n), = ranges
    (a, e), = atoms.items()
    if a.op == "bind" and a.args[0] == "ordstat" and a.args[1][0] is n and a.args[3][0] is v and v.args[0] not in a.args[2].fv:
        return bigsum(n, lambda i: power(open_(a.args[2], [i]), e))
    return None


_sum_rules.append(_rule_ordstat)


def _canon_sum(ranges, atoms):
    for rule in _sum_rules:
        r = rule(ranges, atoms)
        if r is not None:
            return r
    body = _from_poly({tuple(sorted(atoms.items(), key=lambda ak: ak[0].id)): Fraction(1)})
    best = None
    # ranges depending on other summation variables are kept in order
    perms = itertools.permutations(ranges) if len(ranges) <= 4 else [tuple(ranges)]
    for perm in perms:
        b = abstract(body, [v.args[0] for v, _ in perm])
        ns = tuple(n for _, n in perm)
        key = (b.id, tuple(n.id for n in ns))
        if best is None or key < best[0]:
            best = (key, ns, b)
    sort = "R" if body.sort == "R" else "I"
    return mkbind("sum", best[1], best[2], (), sort)


ENUMS: dict = {}  # size of an enumeration -> (columns, ranges, predicate)


def bigop(kind, n, f, extra=(), sort=None):
    """generic single-index binder"""
    n = const(n)
    if is_num(n):
        k = int(n.args[0])
        if kind != "ordstat" or k <= 6 or is_num(const(extra[0])):
            r = _bigop_concrete(kind, k, f, extra)
            if r is not None:
                return r
    if kind == "min":
        # min f = - max (-f)
        return mul(-1, bigop("max", n, lambda i: mul(-1, f(i)), extra, sort))
    if kind == "ordstat" and const(extra[0]) is ZERO:
        return bigop("min", n, f, (), sort)
    v = fresh("b", "I")
    body = const(f(v))
    if kind in ("all", "any") and n in ENUMS and v.args[0] in body.fv:
        # quantification over an enumeration of {i : pred(i)}
        from .loops import subst_deep

        cols, ranges, pred = ENUMS[n]
        vs = [fresh("e", "I") for _ in ranges]
        b2 = body
        for c, x in zip(cols, vs):
            b2 = subst_deep(b2, c(v), x)
        if v.args[0] not in b2.fv:
            p = pred(*vs)
            b2 = or_(not_(p), b2) if kind == "all" else and_(p, b2)
            for x, m in reversed(list(zip(vs, ranges))):
                b2 = bigop(kind, m, lambda i, b=b2, x=x: subst(b, {x.args[0]: i}))
            return b2
    if kind in ("all", "any"):
        if body is TRUE and kind == "all":
            return TRUE
        if body is FALSE and kind == "any":
            return FALSE
        sort = "B"
        if v.args[0] not in body.fv:
            return or_(le(n, 0), body) if kind == "all" else and_(lt(0, n), body)
        r = _one_point(kind, v, n, body)
        if r is not None:
            return r
    if kind == "max" and v.args[0] not in body.fv:
        return body
    b = abstract(body, [v.args[0]])
    return mkbind(kind, (n,), b, tuple(const(e) for e in extra), sort or body.sort)


def _one_point(kind, v, n, body):
    """exists v < n: v = t and P(v)  is  0 <= t < n and P(t); dually for all"""
    if body.op == ("or" if kind == "any" else "and"):
        rs = [_one_point(kind, v, n, x) if v.args[0] in x.fv else None for x in body.args]
        if all(r is None for r in rs):
            return None
        left = [x for x, r in zip(body.args, rs) if r is None]
        done = [r for r in rs if r is not None]
        if left:
            b = or_(*left) if kind == "any" else and_(*left)
            done.append(bigop(kind, n, lambda i: subst(b, {v.args[0]: i})))
        return or_(*done) if kind == "any" else and_(*done)
    parts = body.args if body.op == ("and" if kind == "any" else "or") else (body,)
    for x in parts:
        e = x if kind == "any" else not_(x)
        if e.op != "eq0" or v.args[0] not in e.fv:
            continue
        d = _to_poly(e.args[0])
        ps = [(m, k) for m, k in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("pos", "ind") and v.args[0] in m[0][0].fv]
        ps = [(m, k) for m, k in ps if m[0][0].op == "pos"] or [
            (((a, 1),), k) for m, k in d.items() for a, q in m if a.op == "ind" and v.args[0] in a.fv
        ]
        if ps and len(ps) <= 2:
            # case split on the sign of the argument of max(0, .)
            a = ps[0][0][0][0]
            if a.op == "pos":
                c, hi, lo = le(0, a.args[0]), a.args[0], ZERO
            else:
                c, hi, lo = a.args[0], ONE, ZERO

            def put(y):
                out = ZERO
                for mm, kk in d.items():
                    f = const(kk)
                    for b, q in mm:
                        f = mul(f, power(y if b is a else b, q))
                    out = add(out, f)
                return out

            alt = [and_(c, eq(put(hi), ZERO)), and_(not_(c), eq(put(lo), ZERO))]
            rest = [y for y in parts if y is not x]
            out = []
            for z in alt:
                b = and_(z, *rest) if kind == "any" else or_(not_(z), *rest)
                out.append(bigop(kind, n, lambda i: subst(b, {v.args[0]: i})))
            return or_(*out) if kind == "any" else and_(*out)
        c = d.get(((v, 1),))
        if c is None or any(v.args[0] in a.fv for m in d if m != ((v, 1),) for a, _ in m):
            continue
        if not all(a.sort == "I" and k > 0 for m in d for a, k in m):
            continue
        t = _from_poly({m: -k / c for m, k in d.items() if m != ((v, 1),)})
        if any(k.denominator != 1 for k in _to_poly(t).values()):
            continue
        rest = [subst(y, {v.args[0]: t}) for y in parts if y is not x]
        if kind == "any":
            return and_(le(0, t), lt(t, n), *rest)
        return or_(lt(t, 0), le(n, t), *rest)
    return None


def _bigop_concrete(kind, k, f, extra):
    xs = [const(f(const(i))) for i in range(k)]
    if kind == "all":
        return and_(*xs)
    if kind == "any":
        return or_(*xs)
    if kind == "prod":
        r = ONE
        for x in xs:
            r = mul(r, x)
        return r
    if kind in ("max", "min") and xs:
        r = xs[0]
        for x in xs[1:]:
            r = maximum(r, x) if kind == "max" else minimum(r, x)
        return r
    if kind == "ordstat" and xs:
        kk = const(extra[0])
        if is_num(kk) and all(is_num(x) for x in xs):
            return sorted(xs, key=lambda x: x.args[0])[int(kk.args[0])]
        if is_num(kk) and kk.args[0] == 0:
            return _bigop_concrete("min", k, f, ())
        if k > 6:
            return None
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                a, b = xs[j], xs[j + 1]
                xs[j], xs[j + 1] = minimum(a, b), maximum(a, b)
        if is_num(kk):
            return xs[int(kk.args[0])]
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = ite(eq(kk, j), xs[j], r)
        return r
    return None


def forall(n, f):
    return bigop("all", n, f)


def exists(n, f):
    return bigop("any", n, f)


def forall_n(shape, f):
    """for all indices of an array of the given shape"""
    if not shape:
        return const(f())
    return forall(shape[0], lambda i: forall_n(shape[1:], lambda *r: f(i, *r)))


# ------------------------------------------------------------------ display
def show(t, depth=0):
    op, a = t.op, t.args
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1)
    if op == "num":
        return str(a[0])
    if op in ("true", "false", "divzero"):
        return op
    if op == "var":
        return a[0]
    if op == "bvar":
        return f"_{a[0]}.{a[1]}"
    if op == "ustr":
        return repr(a[0])
    if op == "app":
        return f"{a[0]}[{','.join(s(x) for x in a[1:])}]"
    if op == "poly":
        parts = []
        for m, c in a:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for x, e in m:
                xs = s(x)
                if x.op == "poly":
                    xs = f"({xs})"
                f.append(xs if e == 1 else f"{xs}^{e}")
            parts.append("*".join(f))
        return " + ".join(parts)
    if op == "bind":
        kind, ns, body, extra = a
        ex = "".join("," + s(e) for e in extra)
        return f"{kind}<{','.join(s(n) for n in ns)}{ex}>({s(body)})"
    if op in ("le0", "lt0", "eq0"):
        return f"({s(a[0])} {dict(le0='<=', lt0='<', eq0='==')[op]} 0)"
    return f"{op}({', '.join(s(x) for x in a)})"


# -------------------------------------------------------------- evaluation
def map_atoms(t, f):
    """replace comparison atoms (le0, lt0, eq0) by f(atom), under binders too"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ("le0", "lt0", "eq0"):
            r = f(x)
        elif x.op == "bind" and x.sort == "B":
            kind, nn, b, extra = x.args
            vs = [fresh("r", "I") for _ in nn]
            b2 = go(open_(b, vs))
            r = bigop(kind, nn[0], lambda i: subst(b2, {vs[0].args[0]: i}), extra, x.sort)
        elif x.op in ("and", "or", "not"):
            r = _rebuild(x, go)
        else:
            r = x
        memo[x.id] = r
        return r

    return go(t)


def atoms_of(t, pred, acc=None, seen=None):
    """collect subterms satisfying pred (including under binders)"""
    if acc is None:
        acc, seen = {}, set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if pred(t):
        acc[t] = None
    if t.op == "bind":
        for x in t.args[1] + (t.args[2],) + t.args[3]:
            atoms_of(x, pred, acc, seen)
    else:
        for x in _children(t.op, t.args):
            atoms_of(x, pred, acc, seen)
    return acc


def evaluate(t, env=None, tol=1e-7):
    """numeric value of a closed term (floats); comparisons are tolerant"""
    import math

    memo = {}
    env = env or {}

    def ev(x):
        if x.id in memo:
            return memo[x.id]
        r = go(x)
        memo[x.id] = r
        return r

    def poly(x):
        s = a = 0.0
        for m, c in _to_poly(x).items():
            v = float(c)
            for b, e in m:
                z = ev(b)
                z = float(z)
                if z == 0 and e < 0:
                    return float("nan"), 1.0
                v *= z**e
            s += v
            a += abs(v)
        return s, a

    def go(x):
        op, a = x.op, x.args
        if op == "num":
            return float(a[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ustr":
            return a[0]
        if op == "var":
            return env[a[0]]
        if op == "app":
            f = env[a[0]]
            return f(*[ev(y) for y in a[1:]])
        if op == "poly":
            return poly(x)[0]
        if op in ("le0", "lt0", "eq0"):
            if op == "lt0" or op == "le0":
                s, m = poly(a[0])
                if x.args[0].sort == "I":
                    return s <= 0 if op == "le0" else s < 0
                return s <= tol * (1e-6 + m) if op == "le0" else s < tol * (1e-6 + m)
            s, m = poly(a[0])
            return abs(s) <= tol * (1e-6 + m)
        if op == "equ":
            return ev(a[0]) == ev(a[1])
        if op == "ind":
            return 1.0 if ev(a[0]) else 0.0
        if op == "pos":
            return max(0.0, ev(a[0]))
        if op == "sqrt":
            return math.sqrt(max(ev(a[0]), 0.0))
        if op == "exp":
            return math.exp(ev(a[0]))
        if op == "log":
            return math.log(ev(a[0]))
        if op == "rpow":
            return ev(a[0]) ** ev(a[1])
        if op == "floor":
            return float(math.floor(ev(a[0])))
        if op == "itu":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == "not":
            return not ev(a[0])
        if op == "and":
            return all(ev(y) for y in a)
        if op == "or":
            return any(ev(y) for y in a)
        if op == "divzero":
            return float("nan")
        if op == "bind":
            kind, ns, body, extra = a
            n = int(ev(ns[0]))
            if kind == "sum" and len(ns) > 1:
                import itertools as _it

                tot = 0.0
                for ix in _it.product(*[range(int(ev(q))) for q in ns]):
                    tot += ev(open_(body, [const(i) for i in ix]))
                return tot
            vals = [ev(open_(body, [const(i)])) for i in range(n)]
            if kind == "sum":
                return sum(vals)
            if kind == "max":
                return max(vals)
            if kind == "prod":
                return math.prod(vals)
            if kind == "all":
                return all(vals)
            if kind == "any":
                return any(vals)
            if kind == "ordstat":
                return sorted(vals)[int(ev(extra[0]))]
        raise NotImplementedError(f"evaluate {op}")

    return ev(t)


# ------------------------------------------------------------------ derivative
def diff(t, x, _memo=None):
    """derivative with respect to an atom (sums, order statistics and case
    distinctions of x are not differentiated)"""
    memo = {} if _memo is None else _memo
    t = const(t)
    if t is x:
        return ONE
    if t.id in memo:
        return memo[t.id]
    op, a = t.op, t.args
    d = lambda y: diff(y, x, memo)
    if op in ("num", "var"):
        r = ZERO
    elif op == "poly":
        r = ZERO
        for m, c in a:
            for k, (y, e) in enumerate(m):
                dy = d(y)
                if dy is ZERO:
                    continue
                term = mul(const(c * e), mul(power(y, e - 1), dy))
                for j, (z, f) in enumerate(m):
                    if j != k:
                        term = mul(term, power(z, f))
                r = add(r, term)
    elif op == "rpow":
        r = ZERO
        if d(a[1]) is not ZERO:
            r = mul(t, mul(d(a[1]), log(a[0])))
        if d(a[0]) is not ZERO:
            r = add(r, mul(a[1], mul(rpow(a[0], sub(a[1], ONE)), d(a[0]))))
    elif op == "exp":
        r = mul(t, d(a[0]))
    elif op == "log":
        r = div(d(a[0]), a[0])
    elif op == "sqrt":
        r = div(d(a[0]), mul(2, t))
    elif not atoms_of(t, lambda y: y is x):
        r = ZERO
    else:
        raise NotImplementedError(f"derivative of {op}")
    memo[t.id] = r
    return r
