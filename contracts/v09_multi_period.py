"""V09: a multi-period portfolio is the concatenation of its periods."""

import numpy as np

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from pyvc.values import SList
from skfolio import PerfMeasure, RiskMeasure
from skfolio.portfolio import BasePortfolio, MultiPeriodPortfolio, Portfolio

BOUND = "at most 3 periods, each with any number of observations"
M = "skfolio.portfolio.MultiPeriodPortfolio."


def period(cx, name, i=0):
    """a portfolio known by its returns and observations"""
    n = cx.dim(f"n_{name}", 1, run=(1, 4), bnd=(1, 2))
    r = cx.array(f"returns_{name}", (n,))
    o = cx.array(f"observations_{name}", (n,), sort="I", run=(0, 12))
    p = cx.new(BasePortfolio, returns=r, observations=o, name=name) if i is None else cx.new(BasePortfolio, returns=r, observations=o, name=name)
    return p, n, r, o


def concatenated(cx, q, parts, what="returns are those of the periods in order"):
    r, o = cx.arr(cx.get(q, "returns")), cx.arr(cx.get(q, "observations"))
    off = tm.ZERO
    for p, n, a, b in parts:
        cx.ensures(what, tm.forall(n, lambda t, off=off, a=a: tm.eq(r.get(off + t), a.get(t))))
        cx.ensures("observations are those of the periods in order", tm.forall(n, lambda t, off=off, b=b: tm.eq(o.get(off + t), b.get(t))))
        off = off + n
    cx.ensures("number of returns is the total of the periods", tm.and_(tm.eq(r.shape[0], off), tm.eq(o.shape[0], off)))
    cx.ensures("mean is that of the current returns", tm.eq(cx.num(cx.get(q, "mean")), tm.div(tm.bigsum(r.shape[0], r.get), r.shape[0])))


def members(cx, q, ps):
    got = cx.items(cx.get(q, "portfolios"))
    cx.ensures("periods are the given portfolios in order", const(len(got) == len(ps) and all(a is b for a, b in zip(got, ps))))
    cx.ensures("length is the number of periods", const(cx.num(cx.method(q, "__len__")) is const(len(ps))))


@contract("V09", "construction", [M + "__init__", M + "_set_portfolios", M + "portfolios", M + "__len__"], bound=BOUND)
def build(cx):
    k = cx.choice("n_portfolios", [1, 2, 3])
    parts = [period(cx, f"p{i}") for i in range(k)]
    lst = [p[0] for p in parts]
    cx.total()
    q = cx.new(MultiPeriodPortfolio, portfolios=lst)
    concatenated(cx, q, parts)
    members(cx, q, lst)


@contract("V09", "append", [M + "append"], bound=BOUND)
def append(cx):
    k = cx.choice("n_portfolios", [0, 1, 2])
    parts = [period(cx, f"p{i}") for i in range(k)]
    new = period(cx, "new")
    q = cx.new(MultiPeriodPortfolio, portfolios=[p[0] for p in parts] if k else None)
    if k and cx.bool("read_before"):
        cx.get(q, "mean")
    cx.total()
    cx.method(q, "append", new[0])
    concatenated(cx, q, [*parts, new])
    members(cx, q, [p[0] for p in [*parts, new]])


@contract("V09", "append leaves the caller's list and other portfolios alone", [M + "append", M + "__copy__"], bound=BOUND)
def append_alias(cx):
    a, b = period(cx, "a"), period(cx, "b")
    lst = [a[0]]
    q = MultiPeriodPortfolio(portfolios=lst) if cx.run else cx.new(MultiPeriodPortfolio, portfolios=lst)
    c = cx.method(q, "copy")
    cx.total()
    cx.method(q, "append", b[0])
    concatenated(cx, c, [a], "a copy keeps its own returns")
    members(cx, c, [a[0]])
    if cx.run:
        cx.ensures("the caller's list is unchanged", const(len(lst) == 1))
        d = MultiPeriodPortfolio(portfolios=lst)
        concatenated(cx, d, [a])


@contract("V09", "replacing a period", [M + "__setitem__", M + "_set_portfolios"], bound=BOUND)
def setitem(cx):
    k = cx.choice("n_portfolios", [1, 2, 3])
    i = cx.choice("position", [0, 1, 2, -1])
    if i >= k:
        return
    parts = [period(cx, f"p{j}") for j in range(k)]
    q = cx.new(MultiPeriodPortfolio, portfolios=[p[0] for p in parts])
    n = cx.dim("n_new", 1, run=(1, 4), bnd=(2,))
    X = cx.array("X_new", (n, 1))
    w = cx.array("w_new", (1,), run=(-1, 1))
    p = cx.new(Portfolio, X=X, weights=w)
    if cx.bool("read_before"):
        cx.get(q, "mean")
    cx.total()
    cx.method(q, "__setitem__", i, p)
    from pyvc.values import SArr

    from_arr = (lambda f: SArr((n,), f, "R")) if not cx.run else None
    a = cx.arr(cx.get(p, "returns"))
    b = cx.arr(cx.get(p, "observations"))
    parts[i] = (p, n, a, b)
    concatenated(cx, q, parts)
    members(cx, q, [x[0] for x in parts])


@contract("V09", "removing a period", [M + "__delitem__", M + "_set_portfolios"], bound=BOUND)
def delitem(cx):
    k = cx.choice("n_portfolios", [2, 3])
    i = cx.choice("position", [0, 1, 2, -1])
    if i >= k:
        return
    parts = [period(cx, f"p{j}") for j in range(k)]
    q = cx.new(MultiPeriodPortfolio, portfolios=[p[0] for p in parts])
    if cx.bool("read_before"):
        cx.get(q, "mean")
    cx.total()
    cx.method(q, "__delitem__", i)
    del parts[i]
    concatenated(cx, q, parts)
    members(cx, q, [x[0] for x in parts])


@contract("V09", "assigning the periods", [M + "portfolios", M + "_set_portfolios"], bound=BOUND)
def assign(cx):
    a, b, c = period(cx, "a"), period(cx, "b"), period(cx, "c")
    q = cx.new(MultiPeriodPortfolio, portfolios=[a[0]])
    if cx.bool("read_before"):
        cx.get(q, "mean")
    cx.total()
    if cx.run:
        q.portfolios = [b[0], c[0]]
    else:
        cx.set(q, "portfolios", [b[0], c[0]])
    concatenated(cx, q, [b, c])
    members(cx, q, [b[0], c[0]])


@contract("V09", "overlapping periods are refused at construction", [M + "_set_portfolios"], bound=BOUND)
def order(cx):
    k = cx.choice("n_portfolios", [2, 3])
    parts = [period(cx, f"p{i}") for i in range(k)]
    lst = [p[0] for p in parts]
    ok = tm.and_(*[tm.lt(a[3].get(a[1] - 1 if not cx.run else a[1] - 1), b[3].get(tm.ZERO)) for a, b in zip(parts, parts[1:])])
    kind, val = cx.attempt(MultiPeriodPortfolio, portfolios=lst, check_observations_order=True)
    if kind == "ok":
        cx.ensures("accepted only when every period starts after the previous one ended", ok)
        concatenated(cx, val, parts)
    else:
        cx.ensures("refused only when periods overlap", tm.and_(tm.not_(ok), const(isinstance(val, ValueError))))


@contract("V09", "overlapping periods are refused by append", [M + "append"], bound=BOUND)
def order_append(cx):
    a, b = period(cx, "a"), period(cx, "b")
    q = cx.new(MultiPeriodPortfolio, portfolios=[a[0]], check_observations_order=True)
    ok = tm.lt(a[3].get(const(a[1]) - 1), b[3].get(tm.ZERO))
    kind, val = cx.attempt(q.append, b[0]) if cx.run else cx.attempt(cx.it.getattr(q, "append"), b[0])
    if kind == "ok":
        cx.ensures("accepted only when the period starts after the last one ended", ok)
        concatenated(cx, q, [a, b])
    else:
        cx.ensures("refused only when periods overlap", tm.and_(tm.not_(ok), const(isinstance(val, ValueError))))
        concatenated(cx, q, [a])


@contract("V09", "append to any number of periods", [M + "append"])
def append_any(cx):
    """inductive step: whatever the returns and observations so far, append adds those of the new period"""
    k = cx.dim("n_periods", 1, run=(1, 4), bnd=(1, 2))
    n = cx.dim("n_so_far", 1, run=(4, 6), bnd=(2,))
    new = period(cx, "new")
    last = period(cx, "last")
    r = cx.array("returns_so_far", (n,))
    o = cx.array("observations_so_far", (n,), sort="I", run=(0, 5))
    q = cx.new(MultiPeriodPortfolio)
    if cx.run:
        for key, v in (("_portfolios", [last[0]] * k), ("returns", cx.arg(r)), ("observations", cx.arg(o))):
            object.__setattr__(q, key, v)
    else:
        q.attrs.update(_portfolios=SList(n=const(k), fn=lambda i: last[0]) if cx.sym else SList([last[0]] * k), returns=r, observations=o)
    if cx.bool("read_before"):
        cx.get(q, "mean")
    cx.total()
    cx.method(q, "append", new[0])
    concatenated(cx, q, [(None, n, r, o), new])
    cx.ensures("one more period", tm.eq(cx.num(cx.method(q, "__len__")), const(k) + 1))
    cx.ensures("the new period is last", const(cx.method(q, "__getitem__", -1) is new[0]))
