"""V10: Pareto dominance and ranking."""

import numpy as np

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from skfolio import PerfMeasure, Population, RatioMeasure, RiskMeasure
from skfolio.portfolio import BasePortfolio
from skfolio.utils.sorting import dominate, non_denominated_sort

B = "skfolio.portfolio.BasePortfolio."


def dominates(m, f, g):
    """f is at least as good everywhere and better somewhere"""
    return tm.and_(tm.forall(m, lambda k: tm.le(g(k), f(k))), tm.exists(m, lambda k: tm.lt(g(k), f(k))))


@contract("V10", "dominance of two fitness vectors", "skfolio.utils.sorting.dominate")
def dom(cx):
    m = cx.dim("n_measures", 1, run=(1, 4), bnd=(1, 2, 3))
    a = cx.array("fitness_1", (m,), run=(-2, 2))
    b = cx.array("fitness_2", (m,), run=(-2, 2))
    if cx.run and cx.bool("ties"):
        from pyvc.values import from_numpy

        c = np.where(np.round(a.real) == np.round(b.real), a.real, b.real)
        b = from_numpy(c)
    cx.total()
    r = cx.call(dominate, a, b)
    cx.ensures("at least as good everywhere and better somewhere", tm.iff(const(r) if const(r).sort == "B" else tm.ne(const(r), 0), dominates(m, a.get, b.get)))


def _fitness(cx, name, n, kw):
    r = cx.array(name, (n,))
    return cx.new(BasePortfolio, returns=r, observations=cx.arange(n), fitness_measures=MEASURES, **kw)


MEASURES = [PerfMeasure.MEAN, RiskMeasure.VARIANCE, RatioMeasure.SHARPE_RATIO]


@contract("V10", "fitness of a portfolio", [B + "fitness"], bound="these lists of measures, any returns")
def fitness(cx):
    n = cx.dim("n_observations", 2, run=(2, 6), bnd=(2,))
    ms = cx.choice("measures", [MEASURES, [RiskMeasure.MAX_DRAWDOWN, PerfMeasure.ANNUALIZED_MEAN], [RiskMeasure.SEMI_DEVIATION], [RatioMeasure.CALMAR_RATIO, RiskMeasure.WORST_REALIZATION]])
    p = cx.new(BasePortfolio, returns=cx.array("returns", (n,)), observations=cx.arange(n), fitness_measures=ms)
    f = cx.arr(cx.get(p, "fitness"))
    cx.ensures("one value per measure", tm.eq(f.shape[0], len(ms)))
    for k, q in enumerate(ms):
        v = cx.num(cx.get(p, q.value))
        if cx.run and v.op == "var":
            continue
        good = isinstance(q, (PerfMeasure, RatioMeasure))
        cx.ensures(f"{q.value} counts {'positively' if good else 'negatively'}", tm.eq(f.get(k), v if good else -v))


@contract("V10", "dominance of two portfolios", [B + "dominates", B + "__gt__", B + "__ge__", B + "__lt__", B + "__le__"])
def portfolios(cx):
    n = cx.dim("n_observations", 2, run=(2, 5), bnd=(2,))
    ms = [PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION]
    p, q = (cx.new(BasePortfolio, returns=cx.array(k, (n,)), observations=cx.arange(n), fitness_measures=ms) for k in ("a", "b"))
    f, g = cx.arr(cx.get(p, "fitness")), cx.arr(cx.get(q, "fitness"))
    cx.total()
    b = lambda x: const(x) if const(x).sort == "B" else tm.ne(const(x), 0)
    d = dominates(2, lambda k: f.get(k), lambda k: g.get(k))
    e = dominates(2, lambda k: g.get(k), lambda k: f.get(k))
    cx.ensures("dominates compares the fitness", tm.iff(b(cx.method(p, "dominates", q)), d))
    cx.ensures("greater than is dominance", tm.iff(b(cx.method(p, "__gt__", q)), d))
    same = tm.and_(*[tm.eq(f.get(k), g.get(k)) for k in range(2)])
    cx.ensures("greater or equal is dominance or equal fitness", tm.iff(b(cx.method(p, "__ge__", q)), tm.or_(d, same)))


def _fronts(cx, fronts, n, dom, first_only):
    fr = [[int(tm.numval(const(i))) for i in cx.items(f)] for f in cx.items(fronts)]
    flat = [i for f in fr for i in f]
    cx.ensures("each element is ranked once", const(len(set(flat)) == len(flat) and (first_only or sorted(flat) == list(range(n)))))
    if first_only:
        cx.ensures("only the first front is returned", const(len(fr) == 1))
    cx.ensures("no front is empty", const(all(fr)))
    left = set(range(n))
    for f in fr:
        for i in left:
            best = tm.and_(*[tm.not_(dom(j, i)) for j in left if j != i])
            if i in f:
                cx.ensures("elements of a front are not dominated by any element of this or later fronts", best)
            else:
                cx.ensures("elements of later fronts are dominated", tm.not_(best))
        left -= set(f)


@contract("V10", "non-dominated sorting", "skfolio.utils.sorting.non_denominated_sort", sym=False, runs=150, bnd_budget=120)
def sort(cx):
    n = cx.dim("n", 1, run=(1, 7), bnd=(1, 2, 3))
    m = cx.dim("n_measures", 1, run=(1, 3), bnd=(2,))
    F = cx.array("fitnesses", (n, m), run=(-1, 1))
    first = cx.bool("first_front_only")
    cx.total()
    fronts = cx.call(non_denominated_sort, F, first)
    _fronts(cx, fronts, n, lambda i, j: dominates(m, lambda k: F.get(i, k), lambda k: F.get(j, k)), first)
    cx.unmodified(F)


@contract("V10", "non-dominated sorting of a population", ["skfolio.population.Population.non_denominated_sort"], sym=False, bnd=False, runs=80)
def population(cx):
    n = cx.dim("n", 1, run=(1, 6), bnd=(2,))
    t = cx.dim("n_observations", 2, run=(2, 4), bnd=(2,))
    R = cx.array("returns", (n, t))
    first = cx.bool("first_front_only")
    ms = cx.choice("measures", [[PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION], [PerfMeasure.MEAN, RiskMeasure.VARIANCE, RiskMeasure.MAX_DRAWDOWN]])
    pop = Population([BasePortfolio(returns=R.real[i], observations=np.arange(t), fitness_measures=ms) for i in range(n)])
    val = [[(1 if isinstance(q, PerfMeasure) else -1) * getattr(p, q.value) for q in ms] for p in pop]
    cx.total()
    fronts = pop.non_denominated_sort(first_front_only=first)
    dom_ = lambda i, j: const(all(a >= b for a, b in zip(val[i], val[j])) and any(a > b for a, b in zip(val[i], val[j])))
    _fronts(cx, fronts, n, dom_, first)
