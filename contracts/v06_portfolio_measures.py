"""V06: every measure of a portfolio is its definition on the portfolio returns."""

import numpy as np

from contracts import _measures as ms
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from skfolio import measures as mt
from skfolio.portfolio._base import BasePortfolio

B = "skfolio.portfolio.BasePortfolio."


def setup(cx):
    n = cx.dim("n", 2, run=(3, 8), bnd=(2, 3))
    x = cx.array("x", (n,))
    p = ms.params(cx, n)
    if p["compounded"]:
        cx.requires(tm.forall(n, lambda i: tm.lt(-1, x.get(i))))
    return n, x, p


def _register(name):
    @contract("V06", f"portfolio {name}", [B + "get_measure", B + "__getattribute__"])
    def c(cx):
        n, x, p = setup(cx)
        m = tm.bigsum(n, x.get) / const(n)
        cx.requires(tm.lt(0, tm.bigsum(n, lambda i: tm.power(x.get(i) - m, 2))))
        if name in ms.RATIOS:
            cx.requires(tm.ne(ms.value(ms.RATIOS[name], n, x.get, p), 0))
        cx.total()
        o = cx.new(BasePortfolio, returns=x, observations=cx.arange(n), **p)
        v = cx.get(o, name)
        cx.ensures(f"{name} is its definition on the portfolio returns", tm.eq(cx.num(v), ms.value(name, n, x.get, p)))
        cx.unmodified(x)


for _n in ms.ALL:
    _register(_n)
