"""V11: a population is a list of portfolios selected and aggregated by their measures."""

import numpy as np

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from pyvc.values import SList, SObj
from skfolio import PerfMeasure, Population, RatioMeasure, RiskMeasure
from skfolio.portfolio import BasePortfolio, MultiPeriodPortfolio, Portfolio

P = "skfolio.population.Population."
SIZES = [1, 2, 3]
BOUND = "populations of at most 3 portfolios, each with any number of observations"


def population(cx, names=None, tags=None, sizes=SIZES, cls=BasePortfolio):
    k = cx.choice("size", sizes)
    ps = []
    for i in range(k):
        n = cx.dim(f"n{i}", 2, run=(2, 4), bnd=(2,))
        r = cx.array(f"r{i}", (n,), run=(-2, 2))
        ps.append(cx.new(BasePortfolio, returns=r, observations=cx.arange(n), name=names[i] if names else f"p{i}", tag=tags[i] if tags else None))
    return cx.new(Population, list(ps)), ps


def same(cx, pop, ps, what):
    got = cx.items(pop)
    cx.ensures(what, const(len(got) == len(ps) and all(a is b for a, b in zip(got, ps))))


def is_pop(cx, x):
    cx.ensures("the result is a population", const((type(x) if cx.run else getattr(x, "cls", None)) is Population))


@contract("V11", "list operations", [P + "__init__", P + "append", P + "insert", P + "extend", P + "__add__", P + "__getitem__", P + "__setitem__"], bound=BOUND)
def ops(cx):
    pop, ps = population(cx)
    n = cx.dim("m", 2, run=(2, 4), bnd=(2,))
    q = cx.new(BasePortfolio, returns=cx.array("q", (n,)), observations=cx.arange(n), name="q")
    op = cx.choice("op", ["append", "insert", "extend", "extend population", "add", "getitem", "slice", "setitem"])
    cx.total()
    if op == "append":
        cx.method(pop, "append", q)
        same(cx, pop, ps + [q], "append adds the portfolio at the end")
    elif op == "insert":
        i = cx.choice("at", [0, 1, -1])
        e = list(ps)
        e.insert(i, q)
        cx.method(pop, "insert", i, q)
        same(cx, pop, e, "insert adds the portfolio at the position")
    elif op == "extend":
        cx.method(pop, "extend", [q, ps[0]])
        same(cx, pop, ps + [q, ps[0]], "extend adds the portfolios in order")
    elif op == "extend population":
        cx.method(pop, "extend", cx.new(Population, [q]))
        same(cx, pop, ps + [q], "extend adds the portfolios of a population")
    elif op == "add":
        o = cx.new(Population, [q])
        r = cx.method(pop, "__add__", o)
        is_pop(cx, r)
        same(cx, r, ps + [q], "sum is the concatenation")
        same(cx, pop, ps, "operands of a sum are unchanged")
        same(cx, o, [q], "operands of a sum are unchanged")
    elif op == "getitem":
        i = cx.choice("at", [0, -1])
        cx.ensures("item is the portfolio at the position", const(cx.method(pop, "__getitem__", i) is ps[i]))
    elif op == "slice":
        r = cx.method(pop, "__getitem__", slice(1, None))
        is_pop(cx, r)
        same(cx, r, ps[1:], "a slice is the population of these portfolios")
    else:
        cx.method(pop, "__setitem__", 0, q)
        same(cx, pop, [q] + ps[1:], "setitem replaces the portfolio at the position")


@contract("V11", "only portfolios are accepted", [P + "__init__", P + "append", P + "insert", P + "extend", P + "__add__", P + "__setitem__"], bound=BOUND)
def reject(cx):
    pop, ps = population(cx, sizes=[1, 2])
    bad = cx.choice("item", [1, "a", None])
    op = cx.choice("op", ["append", "insert", "extend", "setitem", "init", "add"])
    if op == "init":
        r = cx.attempt(lambda: cx.new(Population, [ps[0], bad])) if cx.run else cx.attempt(Population, [ps[0], bad])
    elif op == "append":
        r = cx.attempt(_m(cx, pop, "append"), bad)
    elif op == "insert":
        r = cx.attempt(_m(cx, pop, "insert"), 0, bad)
    elif op == "extend":
        r = cx.attempt(_m(cx, pop, "extend"), [bad])
    elif op == "setitem":
        r = cx.attempt(_m(cx, pop, "__setitem__"), 0, bad)
    else:
        r = cx.attempt(_m(cx, pop, "__add__"), [ps[0]])
    cx.ensures("anything else is rejected", const(r[0] == "raise"))
    same(cx, pop, ps, "a rejected item leaves the population unchanged")


def _m(cx, o, name):
    return getattr(o, name) if cx.run else cx.it.getattr(o, name)


@contract("V11", "filter", [P + "filter"], bound=BOUND)
def filt(cx):
    names, tags = ["a", "b", "a"], ["x", "x", None]
    pop, ps = population(cx, names, tags)
    by, tg = cx.choice("names", [None, "a", ["b", "c"], ["a", "b"]]), cx.choice("tags", [None, "x", ["y"], ["x", "y"]])
    cx.total()
    r = cx.method(pop, "filter", names=by, tags=tg)
    L = lambda v: [v] if isinstance(v, str) else v
    want = [p for p, n, t in zip(ps, names, tags) if (by is None or n in L(by)) and (tg is None or t in L(tg))]
    is_pop(cx, r)
    same(cx, r, want, "exactly the portfolios matching every given criterion, in order")
    same(cx, pop, ps, "the population is unchanged")


class Valued(BasePortfolio):
    """portfolio whose mean is a given value"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)

    def __getattribute__(self, name):
        return object.__getattribute__(self, "v" if name == "mean" else name)


@contract("V11", "measures of any number of portfolios", [P + "measures", P + "measures_mean", P + "measures_std"])
def measures_any(cx):
    n = cx.dim("size", 1, run=(1, 7), bnd=(1, 2, 3))
    v = cx.array("values", (n,))
    if cx.run:
        pop = Population([Valued(float(x)) for x in v.real])
    else:
        pop = SObj(Population, {"$items": SList(n=const(n), fn=lambda k: SObj(Valued, {"v": v.get(k)})) if cx.sym else SList([SObj(Valued, {"v": v.get(k)}) for k in range(n)])})
    cx.total()
    a = cx.arr(cx.method(pop, "measures", PerfMeasure.MEAN))
    cx.ensures("one value per portfolio in order", tm.and_(tm.eq(a.shape[0], n), tm.forall(n, lambda i: tm.eq(a.get(i), v.get(i)))))
    mean = tm.div(tm.bigsum(n, v.get), n)
    cx.ensures("mean over portfolios", tm.eq(cx.num(cx.method(pop, "measures_mean", PerfMeasure.MEAN)), mean))
    sd = cx.num(cx.method(pop, "measures_std", PerfMeasure.MEAN))
    cx.ensures("standard deviation over portfolios", tm.and_(tm.le(0, sd), tm.eq(sd * sd, tm.div(tm.bigsum(n, lambda i: tm.power(v.get(i) - mean, 2)), n))))


MS = [PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION, RiskMeasure.VARIANCE]


@contract("V11", "measures of all portfolios", [P + "measures", P + "measures_mean", P + "measures_std"], bound=BOUND)
def measures(cx):
    pop, ps = population(cx)
    m = cx.choice("measure", MS)
    v = [cx.num(cx.get(p, m.value)) for p in ps]
    cx.total()
    a = cx.arr(cx.method(pop, "measures", m))
    cx.ensures("one value per portfolio in order", tm.and_(tm.eq(a.shape[0], len(ps)), *[tm.eq(a.get(i), x) for i, x in enumerate(v)]))
    mean = tm.div(sum(v[1:], v[0]), len(v))
    cx.ensures("mean over portfolios", tm.eq(cx.num(cx.method(pop, "measures_mean", m)), mean))
    var = tm.div(sum([tm.power(x - mean, 2) for x in v], tm.ZERO), len(v))
    sd = cx.num(cx.method(pop, "measures_std", m))
    cx.ensures("standard deviation over portfolios", tm.and_(tm.le(0, sd), tm.eq(sd * sd, var)))


@contract("V11", "sorting and quantiles", [P + "sort_measure", P + "quantile", P + "min_measure", P + "max_measure"], bound=BOUND)
def sort(cx):
    pop, ps = population(cx)
    m = cx.choice("measure", MS[:2])
    v = {id(p): cx.num(cx.get(p, m.value)) for p in ps}
    rev = cx.bool("reverse")
    cx.total()
    r = cx.method(pop, "sort_measure", m, reverse=rev)
    is_pop(cx, r)
    got = cx.items(r)
    cx.ensures("the same portfolios", const(sorted(map(id, got)) == sorted(v)))
    for a, b in zip(got, got[1:]):
        x, y = v[id(a)], v[id(b)]
        cx.ensures("ordered by the measure", tm.le(y, x) if rev else tm.le(x, y))
    same(cx, pop, ps, "the population is unchanged")
    lo, hi = cx.method(pop, "min_measure", m), cx.method(pop, "max_measure", m)
    cx.ensures("minimum is the smallest", tm.and_(const(id(lo) in v), *[tm.le(v[id(lo)], x) for x in v.values()]))
    cx.ensures("maximum is the largest", tm.and_(const(id(hi) in v), *[tm.le(x, v[id(hi)]) for x in v.values()]))


@contract("V11", "quantile of a measure", [P + "quantile"], bound=BOUND)
def quant(cx):
    pop, ps = population(cx)
    m = PerfMeasure.MEAN
    v = {id(p): cx.num(cx.get(p, m.value)) for p in ps}
    q = cx.choice("q", [0, 0.25, 0.5, 0.75, 1])
    k = max(0, int(np.round(len(ps) * q)) - 1)
    got = cx.method(pop, "quantile", m, q)
    x = v[id(got)]
    below = sum([tm.ite(tm.lt(y, x), 1, 0) for y in v.values()], tm.ZERO)
    upto = sum([tm.ite(tm.le(y, x), 1, 0) for y in v.values()], tm.ZERO)
    cx.ensures("rank of the quantile", tm.and_(tm.le(below, k), tm.lt(k, upto)))


@contract("V11", "quantile of a larger population", [P + "quantile"], sym=False, bnd=False, runs=120)
def quant_large(cx):
    n, seed = int(cx.dim("size", 1, run=(1, 12))), int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6)))))
    rng = np.random.default_rng(seed)
    ps = [BasePortfolio(returns=rng.normal(size=6), observations=np.arange(6), name=f"p{i}") for i in range(n)]
    m = [PerfMeasure.MEAN, RiskMeasure.VARIANCE, RiskMeasure.CVAR][seed % 3]
    q = [float(rng.uniform()), int(rng.integers(0, 101)) / 100][seed % 2]
    got = Population(ps).quantile(m, q)
    order = sorted(ps, key=lambda x: getattr(x, m.value))
    near = [k for k in range(n + 1) if abs(k - n * q) <= 0.5 + 1e-9]
    cx.ensures("rank nearest to the quantile", const(any(got is order[max(0, k - 1)] for k in near)))


@contract("V11", "parameters of all portfolios", [P + "set_portfolio_params"], bound=BOUND)
def params(cx):
    pop, ps = population(cx)
    b = cx.real("risk_free_rate", run=(-0.1, 0.1))
    comp = cx.bool("compounded")
    for p in ps:
        cx.get(p, "sharpe_ratio")
        cx.get(p, "max_drawdown")
    cx.total()
    r = cx.method(pop, "set_portfolio_params", risk_free_rate=b, compounded=comp)
    cx.ensures("the population is returned", const(r is pop))
    for p in ps:
        cx.ensures("every portfolio has the parameter", tm.and_(tm.eq(cx.num(cx.get(p, "risk_free_rate")), b), const(cx.get(p, "compounded") == comp)))
        mu, sd = cx.num(cx.get(p, "mean")), cx.num(cx.get(p, "standard_deviation"))
        sh = cx.get(p, "sharpe_ratio")
        if cx.num(sh).op != "var":
            cx.ensures("measures follow the parameter", tm.implies(tm.lt(0, sd), tm.eq(cx.num(sh) * sd, mu - const(b))))


@contract("V11", "unknown parameters are rejected", [P + "set_portfolio_params"], bound=BOUND)
def bad_params(cx):
    pop, ps = population(cx)
    r = cx.attempt(_m(cx, pop, "set_portfolio_params"), nonsense=1, risk_free_rate=7)
    cx.ensures("an unknown parameter is rejected", const(r[0] == "raise"))
    for p in ps:
        cx.ensures("nothing is changed", tm.eq(cx.num(cx.get(p, "risk_free_rate")), 0))
