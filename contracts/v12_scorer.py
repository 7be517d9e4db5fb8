"""V12: scorers rank by the measure, greater always better."""

import numpy as np

from contracts import _measures as ms
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from pyvc.values import SObj
from skfolio import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.metrics import make_scorer
from skfolio.metrics._scorer import _PortfolioScorer
from skfolio.portfolio import BasePortfolio

T = ["skfolio.metrics.make_scorer", "skfolio.metrics._scorer._PortfolioScorer.__call__"]
ALL = [*PerfMeasure, *RiskMeasure, *ExtraRiskMeasure, *RatioMeasure]


class Given:
    """estimator that predicts a given portfolio"""

    def __init__(self, p):
        self.p = p

    def predict(self, X):
        return self.p


@contract("V12", "scorer of a measure", T)
def measure(cx):
    n = cx.dim("n_observations", 2, run=(4, 8), bnd=(2,))
    m = cx.choice("measure", [x for x in ALL if x.value in ms.ALL])
    p = cx.new(BasePortfolio, returns=cx.array("returns", (n,)), observations=cx.arange(n))
    flag = cx.choice("greater_is_better", [None, True, False])
    s = cx.call(make_scorer, m, greater_is_better=flag) if flag is not None else cx.call(make_scorer, m)
    est = Given(p) if cx.run else SObj(Given, {"p": p})
    v = cx.num(cx.get(p, m.value))
    got = cx.num(cx.call(s, est, None))
    good = isinstance(m, (PerfMeasure, RatioMeasure)) if flag is None else flag
    if cx.run and v.op == "var":
        return
    cx.ensures("a better portfolio has a greater score", tm.eq(got, v if good else -v))


@contract("V12", "scorer of a function", T)
def function(cx):
    n = cx.dim("n_observations", 2, run=(4, 8), bnd=(2,))
    p = cx.new(BasePortfolio, returns=cx.array("returns", (n,)), observations=cx.arange(n))
    a = cx.real("a", run=(-2, 2))

    flag = cx.choice("greater_is_better", [None, True, False])
    kw = {} if flag is None else {"greater_is_better": flag}
    s = cx.call(make_scorer, combine, a=a, **kw)
    est = Given(p) if cx.run else SObj(Given, {"p": p})
    v = cx.num(cx.get(p, "mean")) - const(a) * cx.num(cx.get(p, "variance"))
    got = cx.num(cx.call(s, est, None))
    cx.ensures("the score is the function of the prediction with its keyword arguments, signed", tm.eq(got, -v if flag is False else v))


def combine(pred, a):
    return pred.mean - a * pred.variance
