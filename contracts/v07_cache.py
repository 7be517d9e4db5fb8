"""V07: measures always reflect the current settings, whatever was read before."""

import numpy as np

from contracts import _measures as ms
from contracts.v06_portfolio_measures import setup
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.npmodel import to_arr
from pyvc.terms import const
from skfolio import PerfMeasure, RatioMeasure, RiskMeasure
from skfolio import measures as mt
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio
from skfolio.portfolio._base import BasePortfolio

B = "skfolio.portfolio.BasePortfolio."
SCALARS = [*ms.ALL, "evar", "edar", "evar_ratio", "edar_ratio"]
ARRAYS = ["fitness", "cumulative_returns", "drawdowns"]
SETTINGS = [*ms.PARAMS, "risk_free_rate", "annualized_factor", "compounded", "min_acceptable_return", "fitness_measures"]
FIT1 = [PerfMeasure.MEAN, RiskMeasure.CVAR]
FIT2 = [RatioMeasure.SHARPE_RATIO, RiskMeasure.CDAR, RiskMeasure.VARIANCE]


def evar_stub(cx):
    """EVaR and EDaR are some function of the sample and of beta"""

    def sig(it, a):
        a = to_arr(it, a)
        return tm.bigsum(a.shape[0], lambda i: (i + 1) * a.get(i))

    cx.stub(mt.evar, lambda it, returns, beta: tm.app("evar", [sig(it, returns), const(beta)], "R"))
    cx.stub(mt.edar, lambda it, drawdowns, beta: tm.app("edar", [sig(it, drawdowns), const(beta)], "R"))


def read_all(cx, o):
    for k in [*SCALARS, *ARRAYS]:
        cx.get(o, k)


def same(cx, o, ref, names=SCALARS, what="equals the value of a fresh portfolio"):
    """every measure of o equals that of ref"""
    for k in names:
        a, b = cx.get(o, k), cx.get(ref, k)
        if cx.run:
            a, b = cx.num(a), cx.num(b)
            if a.op == "var" and b.op == "var":
                continue
        cx.ensures(f"{k} {what}", tm.eq(const(a), const(b)))
    for k in ARRAYS:
        a, b = cx.arr(cx.get(o, k)), cx.arr(cx.get(ref, k))
        n = b.shape[0]
        cx.ensures(f"{k} {what}", tm.and_(tm.eq(a.shape[0], n), tm.forall(n, lambda i: tm.eq(a.get(i), b.get(i)))))


def change(cx, p, attr):
    """new value of a setting"""
    if attr == "fitness_measures":
        return FIT2
    if attr == "compounded":
        return not p["compounded"]
    if attr == "min_acceptable_return":
        return cx.real("new", run=(-0.02, 0.02)) if cx.bool("new_target") else None
    if attr in ("risk_free_rate",):
        return cx.real("new", run=(-0.02, 0.02))
    if attr in ("annualized_factor",):
        return cx.real("new", 0, strict=True, run=(2, 300))
    if attr.endswith("theta"):
        return cx.real("new", 0, strict=True, run=(0.1, 3))
    return cx.real("new", 0, 1, strict=True, run=(0.05, 0.95))


def _register(attr):
    @contract("V07", f"measures after changing {attr}", [B + "__setattr__", B + "clear", B + "__getattribute__"], assumptions=["EVaR and EDaR are functions of the sample and beta only"])
    def c(cx):
        evar_stub(cx)
        n, x, p = setup(cx)
        cx.requires(tm.forall(n, lambda i: tm.lt(-1, x.get(i))))
        p["fitness_measures"] = FIT1
        new = change(cx, p, attr)
        cx.total()
        obs = cx.arange(n)
        o = cx.new(BasePortfolio, returns=x, observations=obs, **p)
        read_all(cx, o)
        cx.set(o, attr, new)
        ref = cx.new(BasePortfolio, returns=x, observations=obs, **{**p, attr: new})
        same(cx, o, ref)


for _a in SETTINGS:
    _register(_a)


@contract("V07", "returns and observations cannot be replaced", [B + "__setattr__"])
def read_only(cx):
    n, x, p = setup(cx)
    attr = cx.choice("attribute", ["returns", "observations"])
    cx.total()
    o = cx.new(BasePortfolio, returns=x, observations=cx.arange(n), **p)
    try:
        cx.set(o, attr, x)
        ok = False
    except Exception as e:
        e = getattr(e, "exc", e)
        ok = isinstance(e, AttributeError)
    cx.ensures("assignment is refused", const(ok))
    r = cx.arr(cx.get(o, "returns"))
    cx.ensures("returns are unchanged", tm.and_(tm.eq(r.shape[0], n), tm.forall(n, lambda i: tm.eq(r.get(i), x.get(i)))))


@contract("V07", "a copy has the same measures and its own settings", [B + "__copy__", B + "copy"], assumptions=["EVaR and EDaR are functions of the sample and beta only"])
def copies(cx):
    evar_stub(cx)
    n, x, p = setup(cx)
    cx.requires(tm.forall(n, lambda i: tm.lt(-1, x.get(i))))
    p["fitness_measures"] = FIT1
    new = cx.real("new", 0, 1, strict=True, run=(0.05, 0.95))
    cx.total()
    obs = cx.arange(n)
    o = cx.new(BasePortfolio, returns=x, observations=obs, **p)
    read_all(cx, o)
    q = cx.method(o, "copy")
    cx.set(q, "cvar_beta", new)
    ref = cx.new(BasePortfolio, returns=x, observations=obs, **p)
    ref2 = cx.new(BasePortfolio, returns=x, observations=obs, **{**p, "cvar_beta": new})
    same(cx, o, ref, what="of the original is unaffected")
    same(cx, q, ref2, what="of the copy follows its own settings")
