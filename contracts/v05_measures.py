"""V05: risk and performance measures equal their definitions, for any sample."""

from fractions import Fraction

import numpy as np
import scipy.optimize as sco

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from pyvc.values import SObj
from skfolio import measures as mt

PKG = "skfolio.measures."


# ------------------------------------------------------------- definitions
def total(n, f):
    return tm.bigsum(n, f)


def avg(n, f):
    return total(n, f) / const(n)


def order(n, f, k):
    """k-th smallest value (0-based)"""
    return tm.bigop("ordstat", n, f, extra=(k,), sort="R")


def neg(x):
    return tm.maximum(-x, 0)


def tail(n, beta):
    """number of observations in the tail (real) and index of the quantile"""
    k = (1 - const(beta)) * const(n)
    return k, tm.ceil(k) - 1


def d_var(n, f, beta):
    _, ik = tail(n, beta)
    return -order(n, f, ik)


def d_cvar(n, f, beta):
    k, ik = tail(n, beta)
    return -(total(ik, lambda j: order(n, f, j)) + (k - ik) * order(n, f, ik)) / k


def d_cum(f, compounded):
    if compounded:
        return lambda i: 1000 * tm.bigop("prod", const(i) + 1, lambda j: 1 + f(j))
    return lambda i: total(const(i) + 1, f)


def d_dd(f, compounded):
    c = d_cum(f, compounded)
    top = lambda i: tm.bigop("max", const(i) + 1, c)
    if compounded:
        return lambda i: c(i) / top(i) - 1
    return lambda i: c(i) - top(i)


# ------------------------------------------------------------------ helpers
def sample(cx, name="x", lo=2, run=(-0.1, 0.1), n="n"):
    n = cx.dim(n, lo, run=(max(lo, 3), 9), bnd=(lo, lo + 1))
    return n, cx.array(name, (n,), run=run)


def off_grid(cx, n, beta):
    """concrete runs stay away from samples where (1 - beta) * n is an integer:
    float rounding may then select the neighbouring observation"""
    if cx.run:
        k = (1 - Fraction(beta)) * int(n)
        cx.requires(abs(k - round(k)) > Fraction(1, 10**6))


def simple(name, spec, lo=2, run=(-0.1, 0.1), arg="returns"):
    @contract("V05", name, PKG + name)
    def c(cx):
        n, x = sample(cx, lo=lo, run=run)
        if name in ("skew", "kurtosis"):
            m = avg(n, x.get)
            cx.requires(tm.lt(0, total(n, lambda i: tm.power(x.get(i) - m, 2))))
        cx.total()
        v = cx.call(getattr(mt, name), **{arg: x})
        cx.ensures(f"{name} equals its definition", tm.eq(cx.num(v), spec(n, x.get)))
        cx.unmodified(x)


def central(p):
    return lambda n, f: avg(n, lambda i: tm.power(f(i) - avg(n, f), p))


def d_variance(n, f):
    m = avg(n, f)
    return total(n, lambda i: tm.power(f(i) - m, 2)) / (const(n) - 1)


simple("mean", avg)
simple("variance", d_variance)
simple("standard_deviation", lambda n, f: tm.sqrt(d_variance(n, f)))
simple("third_central_moment", central(3))
simple("fourth_central_moment", central(4))
simple("skew", lambda n, f: central(3)(n, f) / tm.power(tm.sqrt(d_variance(n, f)), 3))
simple("kurtosis", lambda n, f: central(4)(n, f) / tm.power(d_variance(n, f), 2))
simple("worst_realization", lambda n, f: tm.bigop("max", n, lambda i: -f(i)), lo=1)
simple("max_drawdown", lambda n, f: tm.bigop("max", n, lambda i: -f(i)), lo=1, arg="drawdowns")
simple("average_drawdown", lambda n, f: avg(n, lambda i: -f(i)), lo=1, arg="drawdowns")
simple("ulcer_index", lambda n, f: tm.sqrt(avg(n, lambda i: tm.power(f(i), 2))), lo=1, arg="drawdowns")
simple(
    "gini_mean_difference",
    lambda n, f: 2 / (const(n) * (const(n) - 1)) * total(n, lambda i: (2 * i + 1 - n) * order(n, f, i)),
)
simple("effective_number_assets", lambda n, f: 1 / total(n, lambda i: tm.power(f(i), 2)), lo=1, arg="weights")


@contract("V05", "gini mean difference is the mean absolute difference of pairs", PKG + "gini_mean_difference", sym=False, assumptions=["pairwise form of the Gini mean difference checked for samples of 2 to 4 observations only; the order-statistic form is proved for any size"])
def gini_pairs(cx):
    n = cx.dim("n", 2, run=(2, 8), bnd=(2, 3))
    x = cx.array("x", (n,))
    v = cx.call(mt.gini_mean_difference, x)
    pairs = total(n, lambda i: total(n, lambda j: tm.absval(x.get(i) - x.get(j))))
    cx.ensures("gini_mean_difference is the mean absolute difference", tm.eq(cx.num(v), pairs / (const(n) * (const(n) - 1))))


def lower(name, spec):
    """measures with an optional minimum acceptable return (default: the mean)"""

    @contract("V05", name, PKG + name)
    def c(cx):
        n, x = sample(cx)
        given = cx.bool("has_target")
        t = cx.real("target", run=(-0.1, 0.1)) if given else None
        cx.total()
        v = cx.call(getattr(mt, name), returns=x, min_acceptable_return=t)
        ref = const(t) if given else avg(n, x.get)
        cx.ensures(f"{name} equals its definition", tm.eq(cx.num(v), spec(n, x.get, ref)))
        cx.unmodified(x)


lower("mean_absolute_deviation", lambda n, f, t: avg(n, lambda i: tm.absval(f(i) - t)))
lower("first_lower_partial_moment", lambda n, f, t: avg(n, lambda i: neg(f(i) - t)))
lower("semi_variance", lambda n, f, t: total(n, lambda i: tm.power(neg(f(i) - t), 2)) / (const(n) - 1))
lower("semi_deviation", lambda n, f, t: tm.sqrt(total(n, lambda i: tm.power(neg(f(i) - t), 2)) / (const(n) - 1)))
lower("fourth_lower_partial_moment", lambda n, f, t: avg(n, lambda i: tm.power(neg(f(i) - t), 4)))


def tails(name, arg, spec):
    @contract("V05", name, PKG + name)
    def c(cx):
        n, x = sample(cx, lo=1)
        beta = cx.real("beta", 0, 1, strict=True, run=(0.05, 0.95))
        off_grid(cx, n, beta)
        cx.total()
        v = cx.call(getattr(mt, name), **{arg: x, "beta": beta})
        cx.ensures(f"{name} equals its definition", tm.eq(cx.num(v), spec(n, x.get, beta)))
        cx.unmodified(x)


tails("value_at_risk", "returns", d_var)
tails("drawdown_at_risk", "drawdowns", d_var)
tails("cvar", "returns", d_cvar)
tails("cdar", "drawdowns", d_cvar)


@contract("V05", "entropic_risk_measure", PKG + "entropic_risk_measure")
def entropic(cx):
    n, x = sample(cx, lo=1)
    theta = cx.real("theta", 0, strict=True, run=(0.1, 3))
    beta = cx.real("beta", 0, 1, strict=True, run=(0.05, 0.95))
    cx.total()
    v = cx.call(mt.entropic_risk_measure, x, theta=theta, beta=beta)
    mgf = avg(n, lambda i: tm.exp(-x.get(i) / const(theta)))
    cx.ensures("entropic_risk_measure equals its definition", tm.eq(cx.num(v), const(theta) * tm.log(mgf / (1 - const(beta)))))
    cx.unmodified(x)


@contract("V05", "get_cumulative_returns and get_drawdowns", [PKG + "get_cumulative_returns", PKG + "get_drawdowns"])
def cumulative(cx):
    n, x = sample(cx, lo=1)
    cx.requires(tm.forall(n, lambda i: tm.lt(-1, x.get(i))))
    comp = cx.bool("compounded")
    cx.total()
    c = cx.arr(cx.call(mt.get_cumulative_returns, x, compounded=comp))
    d = cx.arr(cx.call(mt.get_drawdowns, x, compounded=comp))
    cx.ensures("one cumulative return and one drawdown per observation", tm.and_(tm.eq(c.shape[0], n), tm.eq(d.shape[0], n)))
    cx.ensures("cumulative returns are the running sum (or product)", tm.forall(n, lambda i: tm.eq(c.get(i), d_cum(x.get, comp)(i))))
    cx.ensures("drawdowns are relative to the running maximum", tm.forall(n, lambda i: tm.eq(d.get(i), d_dd(x.get, comp)(i))))
    cx.unmodified(x)


def _minimize(it, fun, x0=None, method=None, bounds=None, tol=None, **k):
    """assumed contract of scipy.optimize.minimize: an exact minimiser of fun
    over the bounds"""
    lo = const(bounds.get(0).get(0))
    th = it.m.fresh("theta", "R")
    it.m.assume(tm.le(lo, th))
    v = const(it.call(fun, [th]))
    o = SObj(object)
    o.attrs["fun"], o.attrs["x"] = v, th
    it.m.assume(tm.lt(0, th))
    q = it.m.fresh("other", "R")
    it.minimised = (th, lo, v)
    return o


def entropic_spec(n, f, theta, beta):
    return theta * tm.log(avg(n, lambda i: tm.exp(-f(i) / theta)) / (1 - const(beta)))


def tail_entropy(name, arg):
    @contract(
        "V05",
        name,
        PKG + name,
        models={sco.minimize: _minimize},
        assumptions=["scipy.optimize.minimize returns a point of the feasible interval and the objective value there (that it is the minimum is not proved)"],
    )
    def c(cx):
        n, x = sample(cx, lo=1)
        beta = cx.real("beta", 0, 1, strict=True, run=(0.5, 0.95))
        cx.requires(tm.exists(n, lambda i: tm.lt(x.get(i), 0)))
        cx.total()
        v = cx.num(cx.call(getattr(mt, name), **{arg: x, "beta": beta}))
        if cx.run:
            lo = max(-a for a in x.real) / 100
            grid = [lo + d for d in np.geomspace(1e-4, 10, 60)]
            best = min(tm.evaluate(entropic_spec(n, x.get, const(float(t)), beta)) for t in grid)
            got = float(tm.evaluate(v))
            cx.ensures("is the entropic risk measure at the best feasible theta", const(got <= best + 1e-5 and got >= best - 0.05 * abs(best) - 1e-3))
        else:
            th, lo, _ = cx.it.minimised
            cx.ensures("is the entropic risk measure at the best feasible theta", tm.eq(v, entropic_spec(n, x.get, th, beta)))
            cx.ensures("search interval", tm.eq(lo, tm.bigop("max", n, lambda i: -x.get(i)) / 100))
        cx.unmodified(x)


tail_entropy("evar", "returns")
tail_entropy("edar", "drawdowns")
