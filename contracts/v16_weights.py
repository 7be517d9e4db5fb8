"""V16: weights of convex optimisations satisfy every stated constraint."""

import numpy as np

from contracts._convex import prior
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from pyvc.values import from_numpy
from skfolio import RiskMeasure
from skfolio.optimization import DistributionallyRobustCVaR, MaximumDiversification, MeanRisk, ObjectiveFunction, RiskBudgeting

TOL, RISK = dict(tol=1e-4), dict(tol=1e-3)
OBJ = [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO]


def fitted(cx, kw, T=None, objective=None, cls=MeanRisk):
    n = cx.dim("n_assets", 2, run=(2, 4), bnd=(2,))
    T = 2 if cls is DistributionallyRobustCVaR and not cx.run else cx.dim("n_observations", 2, run=(5, 8), bnd=(2,))
    p, X, mu, S = prior(cx, T, n)
    o = cx.choice("objective", objective or OBJ) if cls is MeanRisk else None
    kw = kw(cx, n)
    if cls is MeanRisk:
        kw["objective_function"] = o
    m = cx.new(cls, prior_estimator=p, **kw)
    return m, n, T, X, mu, S, o


def solve(cx, m, X, *a):
    """fit; an infeasible instance is outside the contract"""
    if cx.run:
        import cvxpy as cp
        from pyvc.contract import Discard
        try:
            m.fit(X.real.copy(), *[v.real.copy() for v in a])
        except cp.SolverError:
            raise Discard() from None
    else:
        cx.method(m, "fit", X, *a)
    return cx.arr(cx.get(m, "weights_"))


@contract("V16", "budget and weight bounds", ["skfolio.optimization.MeanRisk.fit"], **TOL)
def bounds(cx):
    def kw(cx, n):
        lo, hi = cx.array("min_weights", (n,), run=(-0.3, 0.2)), cx.array("max_weights", (n,), run=(0.5, 1.0))
        cx.requires(tm.forall(n, lambda i: tm.lt(lo.get(i), hi.get(i))))
        kw.b = cx.real("budget", run=(0.6, 1.0))
        kw.lo, kw.hi = lo, hi
        return dict(min_weights=lo, max_weights=hi, budget=kw.b)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("weights add up to the budget", tm.eq(tm.bigsum(n, w.get), kw.b))
    cx.ensures("no weight is below its minimum", tm.forall(n, lambda i: tm.le(kw.lo.get(i), w.get(i))))
    cx.ensures("no weight is above its maximum", tm.forall(n, lambda i: tm.le(w.get(i), kw.hi.get(i))))


def _factor(cx, m):
    """homogenisation factor of a ratio, 1 otherwise"""
    f = None if cx.run else cx.get(m, "problem_values_").d.get("factor")
    return const(1 if f is None else f)


def _nonzero_factor(cx, m, sign=True):
    """weights are obtained by dividing by the homogenisation factor, assumed not to be zero"""
    if not cx.run:
        f = _factor(cx, m)
        if not tm.is_num(f):
            cx.fact(tm.ne(const(f), 0))
            if sign:
                cx.lemma("the homogenisation factor is positive", tm.lt(0, const(f)))


def _box(cx, n, lo=(-0.3, 0.0), hi=(0.5, 1.0)):
    a, b = cx.array("min_weights", (n,), run=lo), cx.array("max_weights", (n,), run=hi)
    cx.requires(tm.forall(n, lambda i: tm.lt(a.get(i), b.get(i))))
    return dict(min_weights=a, max_weights=b)


def _case(cx, kw, *extra, objective=None, sign=True, cls=MeanRisk):
    m, n, T, X, mu, S, o = fitted(cx, kw, objective=objective, cls=cls)
    y = [e(cx, T) for e in extra]
    w = solve(cx, m, X, *y)
    _nonzero_factor(cx, m, sign)
    return m, n, T, X, mu, S, w, y


def _long(w):
    return lambda i: tm.pos(w.get(i))


def _short(w):
    return lambda i: tm.pos(-w.get(i))


FIT = ["skfolio.optimization.MeanRisk.fit"]


@contract("V16", "scalar bounds", FIT, **TOL)
def scalar_bounds(cx):
    def kw(cx, n):
        kw.lo, kw.hi = cx.real("min_weights", run=(-0.3, 0.1)), cx.real("max_weights", run=(0.5, 1))
        cx.requires(tm.lt(kw.lo, kw.hi))
        return dict(min_weights=kw.lo, max_weights=kw.hi)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("weights add up to one by default", tm.eq(tm.bigsum(n, w.get), 1))
    cx.ensures("every weight is within the bounds", tm.forall(n, lambda i: tm.and_(tm.le(kw.lo, w.get(i)), tm.le(w.get(i), kw.hi))))


@contract("V16", "default bounds", FIT, **TOL)
def default_bounds(cx):
    m, n, T, X, mu, S, w, _ = _case(cx, lambda cx, n: {})
    cx.ensures("weights add up to one by default", tm.eq(tm.bigsum(n, w.get), 1))
    cx.ensures("long only by default", tm.forall(n, lambda i: tm.and_(tm.le(0, w.get(i)), tm.le(w.get(i), 1))))


@contract("V16", "budget range", FIT, **TOL)
def budget_range(cx):
    def kw(cx, n):
        kw.lo, kw.hi = cx.real("min_budget", run=(0.1, 0.4)), cx.real("max_budget", run=(0.5, 0.9))
        return dict(**_box(cx, n), budget=None, min_budget=kw.lo, max_budget=kw.hi)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    s = tm.bigsum(n, w.get)
    cx.ensures("the sum of the weights is within the budget range", tm.and_(tm.le(kw.lo, s), tm.le(s, kw.hi)))


@contract("V16", "long and short limits", FIT, **TOL)
def long_short(cx):
    def kw(cx, n):
        kw.l, kw.s = cx.real("max_long", 0, strict=True, run=(0.9, 1.4)), cx.real("max_short", 0, strict=True, run=(0.05, 0.3))
        b = cx.real("budget", run=(0.5, 0.9))
        return dict(**_box(cx, n, lo=(-0.8, -0.2), hi=(0.8, 1.5)), budget=b, max_long=kw.l, max_short=kw.s)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("long positions do not exceed their limit", tm.le(tm.bigsum(n, _long(w)), kw.l))
    cx.ensures("short positions do not exceed their limit", tm.le(tm.bigsum(n, _short(w)), kw.s))


@contract("V16", "turnover limit", FIT, **TOL)
def turnover(cx):
    def kw(cx, n):
        kw.t, kw.p = cx.real("max_turnover", run=(0.1, 0.5)), cx.array("previous_weights", (n,), run=(0, 0.6))
        return dict(**_box(cx, n), max_turnover=kw.t, previous_weights=kw.p)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("no weight moves by more than the turnover limit", tm.forall(n, lambda i: tm.le(tm.absval(w.get(i) - kw.p.get(i)), kw.t)))


@contract("V16", "linear inequalities", FIT, **TOL)
def inequalities(cx):
    def kw(cx, n):
        k = cx.dim("n_inequalities", 1, run=(1, 2), bnd=(1,))
        kw.k, kw.A, kw.b = k, cx.array("left_inequality", (k, n), run=(-1, 1)), cx.array("right_inequality", (k,), run=(0.05, 0.4))
        return dict(**_box(cx, n), left_inequality=kw.A, right_inequality=kw.b)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("every inequality holds", tm.forall(kw.k, lambda r: tm.le(tm.bigsum(n, lambda i: kw.A.get(r, i) * w.get(i)), kw.b.get(r))))


@contract("V16", "minimum return net of costs and fees", FIT, **TOL)
def min_return(cx):
    def kw(cx, n):
        kw.r = cx.real("min_return", run=(-0.005, 0.01))
        kw.c, kw.f, kw.p = cx.array("transaction_costs", (n,), lo=0, run=(0, 0.002)), cx.array("management_fees", (n,), lo=0, run=(0, 0.002)), cx.array("previous_weights", (n,), run=(0, 0.6))
        for a in (kw.c, kw.f):
            cx.requires(tm.exists(n, lambda i: tm.lt(0, a.get(i))))
        return dict(**_box(cx, n), min_return=kw.r, transaction_costs=kw.c, management_fees=kw.f, previous_weights=kw.p)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    net = tm.bigsum(n, lambda i: mu.get(i) * w.get(i) - tm.absval(kw.c.get(i) * (kw.p.get(i) - w.get(i))) - kw.f.get(i) * w.get(i))
    cx.ensures("expected return net of costs and fees reaches the minimum", tm.le(kw.r, net))


def _variance(S, n, w):
    return tm.bigsum(n, lambda i: tm.bigsum(n, lambda j: w.get(i) * S.get(i, j) * w.get(j)))


def _covariance(cx, m, S):
    return from_numpy(m.prior_estimator_.prior_model_.covariance) if cx.run else S


NOT_RATIO = OBJ[:3]


def _dev_limit(name, target, ratio):
    @contract("V16", f"limit on {name}" + (", maximum ratio" if ratio else ""), FIT, **RISK)
    def c(cx):
        def kw(cx, n):
            kw.l = cx.real("limit", 0, strict=True, run=target)
            return dict(**_box(cx, n), **{f"max_{name}": kw.l}, risk_measure=cx.choice("risk_measure", [RiskMeasure.VARIANCE, RiskMeasure.WORST_REALIZATION]))

        m, n, T, X, mu, S, w, _ = _case(cx, kw, objective=OBJ[3:] if ratio else NOT_RATIO)
        v = _variance(_covariance(cx, m, S), n, w)
        cx.ensures("the limit on the risk of the weights holds", tm.le(v, kw.l * kw.l if name == "standard_deviation" else kw.l))


_dev_limit("standard_deviation", (0.01, 0.02), False)
_dev_limit("standard_deviation", (0.01, 0.02), True)
_dev_limit("variance", (1e-4, 4e-4), False)


def _series(name, n, T, X, w):
    return lambda t: tm.bigsum(n, lambda i: X.get(t, i) * w.get(i))


@contract("V16", "limits on realised risk", FIT, **RISK)
def realised(cx):
    which = cx.choice("measure", ["worst_realization", "mean_absolute_deviation", "semi_deviation", "semi_variance", "first_lower_partial_moment"])

    def kw(cx, n):
        kw.l = cx.real("limit", 0, strict=True, run={"worst_realization": (0.01, 0.03), "semi_variance": (1e-4, 4e-4)}.get(which, (0.005, 0.015)))
        return dict(**_box(cx, n), **{f"max_{which}": kw.l})

    m, n, T, X, mu, S, w, _ = _case(cx, kw, objective=NOT_RATIO if which == "semi_variance" else None)
    r = _series("r", n, T, X, w)
    mw = tm.bigsum(n, lambda i: mu.get(i) * w.get(i))
    f = _factor(cx, m)
    down = cx.define("downside", T, lambda t: tm.pos(f * (mw - r(t))))
    if which == "worst_realization":
        c = tm.forall(T, lambda t: tm.le(-r(t), kw.l))
    elif which == "mean_absolute_deviation":
        c = tm.le(2 * tm.bigsum(T, down) / const(T), kw.l * f)
    elif which == "first_lower_partial_moment":
        c = tm.le(tm.bigsum(T, down) / const(T), kw.l * f)
    else:
        c = tm.le(tm.bigsum(T, lambda t: tm.power(down(t), 2)) / (const(T) - 1), kw.l if which == "semi_variance" else tm.power(kw.l * f, 2))
    cx.ensures("the limit on the risk of the weights holds", c)


@contract("V16", "tracking error limit", FIT, **RISK)
def tracking(cx):
    def kw(cx, n):
        kw.l = cx.real("limit", 0, strict=True, run=(0.015, 0.03))
        return dict(**_box(cx, n), max_tracking_error=kw.l)

    m, n, T, X, mu, S, w, (y,) = _case(cx, kw, lambda cx, T: cx.array("benchmark", (T,), run=(-0.02, 0.02)))
    r = _series("r", n, T, X, w)
    te2 = tm.bigsum(T, lambda t: tm.power(r(t) - y.get(t), 2)) / (const(T) - 1)
    cx.ensures("the tracking error of the weights is within the limit", tm.le(te2, kw.l * kw.l))


@contract("V16", "custom constraints", FIT, **TOL)
def custom(cx):
    def kw(cx, n):
        return dict(**_box(cx, n), add_constraints=first_below_second)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("the custom constraint holds", tm.le(w.get(0), w.get(1)))


def first_below_second(w):
    return w[0] <= w[1]


@contract("V16", "linear inequalities without weight bounds", FIT, **TOL)
def unbounded(cx):
    def kw(cx, n):
        k = cx.dim("n_inequalities", 1, run=(1, 2), bnd=(1,))
        kw.k, kw.A, kw.b = k, cx.array("left_inequality", (k, n), run=(-1, 1)), cx.array("right_inequality", (k,), run=(0.05, 0.4))
        return dict(min_weights=None, max_weights=None, left_inequality=kw.A, right_inequality=kw.b)

    m, n, T, X, mu, S, w, _ = _case(cx, kw, objective=[OBJ[0]])
    cx.ensures("every inequality holds", tm.forall(kw.k, lambda r: tm.le(tm.bigsum(n, lambda i: kw.A.get(r, i) * w.get(i)), kw.b.get(r))))


@contract("V16", "linear inequalities without weight bounds, maximum ratio", FIT, **TOL)
def unbounded_ratio(cx):
    def kw(cx, n):
        k = cx.dim("n_inequalities", 1, run=(1, 2), bnd=(1,))
        kw.k, kw.A, kw.b = k, cx.array("left_inequality", (k, n), run=(-1, 1)), cx.array("right_inequality", (k,), run=(0.05, 0.4))
        return dict(min_weights=None, max_weights=None, left_inequality=kw.A, right_inequality=kw.b)

    m, n, T, X, mu, S, w, _ = _case(cx, kw, objective=OBJ[3:], sign=False)
    cx.ensures("every inequality holds", tm.forall(kw.k, lambda r: tm.le(tm.bigsum(n, lambda i: kw.A.get(r, i) * w.get(i)), kw.b.get(r))))


@contract("V16", "limits on variances, maximum ratio", FIT, **RISK)
def variance_ratio(cx):
    which = cx.choice("measure", ["variance", "semi_variance"])

    def kw(cx, n):
        kw.l = cx.real("limit", 0, strict=True, run=(1e-4, 4e-4))
        return dict(**_box(cx, n), **{f"max_{which}": kw.l}, risk_measure=RiskMeasure.MEAN_ABSOLUTE_DEVIATION)

    m, n, T, X, mu, S, w, _ = _case(cx, kw, objective=OBJ[3:])
    if which == "variance":
        c = tm.le(_variance(_covariance(cx, m, S), n, w), kw.l)
    else:
        r = _series("r", n, T, X, w)
        mw = tm.bigsum(n, lambda i: mu.get(i) * w.get(i))
        f = _factor(cx, m)
        down = cx.define("downside", T, lambda t: tm.pos(f * (mw - r(t))))
        c = tm.le(tm.bigsum(T, lambda t: tm.power(down(t), 2)) / (const(T) - 1), kw.l * f * f)
    cx.ensures("the limit on the risk of the weights holds", c)


@contract("V16", "linear constraints on groups", FIT, unroll=True, **TOL)
def groups(cx):
    def kw(cx, n):
        kw.g = cx.names("groups", (1, n), ["a", "b", "c"])
        for g in "ab":
            cx.requires(tm.exists(n, lambda i: tm.eq(kw.g.get(0, i), const(g))))
        for c in ("0.2", "0.9", "2"):
            cx.requires(tm.forall(n, lambda i: tm.ne(kw.g.get(0, i), const(c))))
        return dict(**_box(cx, n), groups=kw.g, linear_constraints=["a <= 0.9", "a >= 2*b - 0.2", "a + b == 0.9"])

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    s = {g: tm.bigsum(n, lambda i: tm.ind(tm.eq(kw.g.get(0, i), const(g))) * w.get(i)) for g in "ab"}
    cx.ensures("upper limit of a group", tm.le(s["a"], const(0.9)))
    cx.ensures("comparison of two groups", tm.le(2 * s["b"] - const(0.2), s["a"]))
    cx.ensures("equality of groups", tm.eq(s["a"] + s["b"], const(0.9)))


def _invested(w):
    return lambda i: tm.ind(tm.lt(1e-5, tm.absval(w.get(i))))


MIP = dict(solver="SCIP")


@contract("V16", "cardinality", FIT, runs=12, **TOL)
def cardinality(cx):
    def kw(cx, n):
        kw.k = cx.int("cardinality", 1, run=(1, 3))
        cx.requires(tm.lt(kw.k, n))
        return dict(**_box(cx, n, lo=(-0.5, 0.0), hi=(1.0, 1.5)), cardinality=kw.k, **MIP)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("no more assets than the cardinality", tm.le(tm.bigsum(n, _invested(w)), kw.k))


@contract("V16", "group cardinalities", FIT, runs=12, **TOL)
def group_cardinality(cx):
    def kw(cx, n):
        kw.k, kw.g = cx.int("cardinality", 1, run=(1, 2)), cx.names("groups", (1, n), ["a", "b"])
        cx.requires(tm.exists(n, lambda i: tm.eq(kw.g.get(0, i), const("a"))))
        return dict(**_box(cx, n, lo=(-0.5, 0.0), hi=(1.0, 1.5)), groups=kw.g, group_cardinalities={"a": kw.k}, **MIP)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("no more assets of the group than its cardinality", tm.le(tm.bigsum(n, lambda i: tm.ind(tm.eq(kw.g.get(0, i), const("a"))) * _invested(w)(i)), kw.k))


@contract("V16", "minimum long positions", FIT, runs=12, **TOL)
def threshold_long(cx):
    def kw(cx, n):
        kw.t, kw.hi = cx.real("threshold_long", 0, strict=True, run=(0.1, 0.3)), cx.array("max_weights", (n,), lo=0, strict=True, run=(0.6, 1.0))
        return dict(min_weights=0, max_weights=kw.hi, threshold_long=kw.t, **MIP)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("a weight is zero or at least the threshold", tm.forall(n, lambda i: tm.or_(_zero(cx, w.get(i)), tm.le(kw.t, w.get(i)))))


@contract("V16", "minimum long and short positions", FIT, runs=12, **TOL)
def threshold_short(cx):
    def kw(cx, n):
        kw.l, kw.s = cx.real("threshold_long", 0, strict=True, run=(0.1, 0.3)), cx.real("threshold_short", hi=0, strict=True, run=(-0.2, -0.05))
        kw.k = cx.int("cardinality", 1, run=(1, 3))
        cx.requires(tm.lt(kw.k, n))
        return dict(min_weights=cx.real("min_weights", hi=0, strict=True, run=(-0.8, -0.5)), max_weights=cx.real("max_weights", 0, strict=True, run=(1.0, 1.5)), threshold_long=kw.l, threshold_short=kw.s, cardinality=kw.k, **MIP)

    m, n, T, X, mu, S, w, _ = _case(cx, kw)
    cx.ensures("a weight is zero, at least the long or at most the short threshold", tm.forall(n, lambda i: tm.or_(_zero(cx, w.get(i)), tm.le(kw.l, w.get(i)), tm.le(w.get(i), kw.s))))
    cx.ensures("no more assets than the cardinality", tm.le(tm.bigsum(n, _invested(w)), kw.k))


def _zero(cx, x):
    return tm.le(tm.absval(x), const(1e-5)) if cx.run else tm.eq(x, 0)


@contract("V16", "risk budgeting", ["skfolio.optimization.RiskBudgeting.fit"], **TOL)
def risk_budgeting(cx):
    def kw(cx, n):
        kw.lo, kw.hi = cx.array("min_weights", (n,), lo=0, run=(0.0, 0.1)), cx.array("max_weights", (n,), run=(0.6, 1.0))
        cx.requires(tm.forall(n, lambda i: tm.lt(kw.lo.get(i), kw.hi.get(i))))
        kw.k = k = cx.dim("n_inequalities", 1, run=(1, 2), bnd=(1,))
        kw.A, kw.b, kw.r = cx.array("left_inequality", (k, n), run=(-1, 1)), cx.array("right_inequality", (k,), run=(0.3, 0.8)), cx.real("min_return", run=(-0.01, 0.0))
        kw.rb = cx.array("risk_budget", (n,), lo=0, strict=True, run=(0.1, 1))
        return dict(min_weights=kw.lo, max_weights=kw.hi, left_inequality=kw.A, right_inequality=kw.b, min_return=kw.r, risk_budget=kw.rb, risk_measure=cx.choice("risk_measure", [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.SEMI_VARIANCE, RiskMeasure.MEAN_ABSOLUTE_DEVIATION]))

    m, n, T, X, mu, S, w, _ = _case(cx, kw, cls=RiskBudgeting)
    cx.ensures("weights add up to one", tm.eq(tm.bigsum(n, w.get), 1))
    cx.ensures("every weight is within its bounds", tm.forall(n, lambda i: tm.and_(tm.le(kw.lo.get(i), w.get(i)), tm.le(w.get(i), kw.hi.get(i)))))
    cx.ensures("every weight is positive", tm.forall(n, lambda i: tm.lt(0, w.get(i))))
    cx.ensures("every inequality holds", tm.forall(kw.k, lambda r: tm.le(tm.bigsum(n, lambda i: kw.A.get(r, i) * w.get(i)), kw.b.get(r))))
    cx.ensures("the minimum return is reached", tm.le(kw.r, tm.bigsum(n, lambda i: mu.get(i) * w.get(i))))


@contract("V16", "maximum diversification", ["skfolio.optimization.MaximumDiversification.fit"], **TOL)
def diversification(cx):
    def kw(cx, n):
        kw.b = _box(cx, n)
        kw.k = k = cx.dim("n_inequalities", 1, run=(1, 2), bnd=(1,))
        kw.A, kw.c = cx.array("left_inequality", (k, n), run=(-1, 1)), cx.array("right_inequality", (k,), run=(0.3, 0.8))
        kw.s = cx.real("budget", run=(0.6, 1.0))
        return dict(**kw.b, left_inequality=kw.A, right_inequality=kw.c, budget=kw.s)

    m, n, T, X, mu, S, w, _ = _case(cx, kw, cls=MaximumDiversification)
    lo, hi = kw.b["min_weights"], kw.b["max_weights"]
    cx.ensures("weights add up to the budget", tm.eq(tm.bigsum(n, w.get), kw.s))
    cx.ensures("every weight is within its bounds", tm.forall(n, lambda i: tm.and_(tm.le(lo.get(i), w.get(i)), tm.le(w.get(i), hi.get(i)))))
    cx.ensures("every inequality holds", tm.forall(kw.k, lambda r: tm.le(tm.bigsum(n, lambda i: kw.A.get(r, i) * w.get(i)), kw.c.get(r))))


@contract("V16", "distributionally robust CVaR", ["skfolio.optimization.DistributionallyRobustCVaR.fit"], bound="two observations", **TOL)
def robust(cx):
    def kw(cx, n):
        kw.b, kw.s = _box(cx, n), cx.real("budget", run=(0.6, 1.0))
        return dict(**kw.b, budget=kw.s)

    m, n, T, X, mu, S, w, _ = _case(cx, kw, cls=DistributionallyRobustCVaR)
    lo, hi = kw.b["min_weights"], kw.b["max_weights"]
    cx.ensures("weights add up to the budget", tm.eq(tm.bigsum(n, w.get), kw.s))
    cx.ensures("every weight is within its bounds", tm.forall(n, lambda i: tm.and_(tm.le(lo.get(i), w.get(i)), tm.le(w.get(i), hi.get(i)))))
