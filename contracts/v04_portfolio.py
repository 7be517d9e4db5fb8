"""V04: portfolio returns are X w minus costs and fees."""

import numpy as np

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
import pandas as pd

from skfolio.measures import PerfMeasure, RiskMeasure
from skfolio.portfolio import Portfolio

P = "skfolio.portfolio.Portfolio."


def cost_like(cx, name, m, run=(0, 0.02)):
    """None, scalar or per-asset input: (argument, j -> value)"""
    kind = cx.choice(name + "_kind", ["none", "scalar", "array"])
    if kind == "none":
        return None, lambda j: tm.ZERO
    if kind == "scalar":
        c = cx.real(name, run=run)
        return c, lambda j: const(c)
    a = cx.array(name, (m,), run=run)
    return a, a.get


def portfolio(cx, lo=1, costs=True, **kw):
    n = cx.dim("n_observations", lo, run=(2, 6), bnd=(2,))
    m = cx.dim("n_assets", 1, run=(1, 4), bnd=(2,))
    X = cx.array("X", (n, m))
    w = cx.array("weights", (m,), run=(-1, 1))
    args = dict(kw)
    pw = c = f = lambda j: tm.ZERO
    if costs:
        if cx.bool("has_previous_weights"):
            a = cx.array("previous_weights", (m,), run=(-1, 1))
            pw = a.get
            args["previous_weights"] = a
        args["transaction_costs"], c = cost_like(cx, "transaction_costs", m)
        args["management_fees"], f = cost_like(cx, "management_fees", m)
    return n, m, X, w, pw, c, f, args


@contract("V04", "portfolio returns", [P + "__init__"], cost=5)
def returns(cx):
    n, m, X, w, pw, c, f, args = portfolio(cx)
    cx.total()
    p = cx.new(Portfolio, X=X, weights=w, **args)
    r = cx.arr(cx.get(p, "returns"))
    cost = tm.bigsum(m, lambda j: c(j) * tm.absval(pw(j) - w.get(j)))
    fee = tm.bigsum(m, lambda j: f(j) * w.get(j))
    gross = lambda t: tm.bigsum(m, lambda j: X.get(t, j) * w.get(j))
    cx.ensures("one return per observation", tm.eq(r.shape[0], n))
    cx.ensures("total_cost is the cost of trading from the previous weights", tm.eq(cx.num(cx.get(p, "total_cost")), cost))
    cx.ensures("total_fee is the fee charged on the weights", tm.eq(cx.num(cx.get(p, "total_fee")), fee))
    cx.ensures("returns are the weighted asset returns minus costs and fees", tm.forall(n, lambda t: tm.eq(r.get(t), gross(t) - cost - fee)))
    pw_ = cx.arr(cx.get(p, "weights"))
    cx.ensures("weights are kept", tm.forall(m, lambda j: tm.eq(pw_.get(j), w.get(j))))
    cx.ensures("number of assets", tm.eq(cx.num(cx.get(p, "n_assets")), m))
    cx.unmodified(X, w)


@contract(
    "V04",
    "portfolio figures from asset figures",
    [P + "expected_returns_from_assets", P + "variance_from_assets", P + "effective_number_assets", P + "sric", P + "diversification"],
)
def from_assets(cx):
    n, m, X, w, pw, c, f, args = portfolio(cx, lo=2)
    p = cx.new(Portfolio, X=X, weights=w, **args)
    mu = cx.array("assets_expected_returns", (m,))
    cov = cx.array("assets_covariance", (m, m))
    cost = tm.bigsum(m, lambda j: c(j) * tm.absval(pw(j) - w.get(j)))
    fee = tm.bigsum(m, lambda j: f(j) * w.get(j))
    cx.total()
    cx.ensures(
        "expected return from assets is net of costs and fees",
        tm.eq(cx.num(cx.method(p, "expected_returns_from_assets", mu)), tm.bigsum(m, lambda j: mu.get(j) * w.get(j)) - cost - fee),
    )
    cx.ensures(
        "variance from assets is the quadratic form of the weights",
        tm.eq(cx.num(cx.method(p, "variance_from_assets", cov)), tm.bigsum(m, lambda i: tm.bigsum(m, lambda j: w.get(i) * cov.get(i, j) * w.get(j)))),
    )
    cx.unmodified(mu, cov)


@contract("V04", "effective number of assets and SRIC", [P + "effective_number_assets", P + "sric", P + "diversification"])
def derived(cx):
    n, m, X, w, pw, c, f, args = portfolio(cx, lo=2, costs=False)
    p = cx.new(Portfolio, X=X, weights=w, **args)
    s2 = tm.bigsum(m, lambda j: w.get(j) * w.get(j))
    cx.requires(tm.lt(0 if not cx.run else const(1e-4), s2))
    cx.ensures("effective number of assets is one over the sum of squared weights", tm.eq(cx.num(cx.get(p, "effective_number_assets")), tm.div(tm.ONE, s2)))
    sr = cx.num(cx.get(p, "sharpe_ratio"))
    sd = cx.num(cx.get(p, "standard_deviation"))
    if cx.run:
        cx.requires(tm.lt(1e-4, sd), tm.lt(1e-3, tm.absval(sr)))
    cx.ensures("sric", tm.eq(cx.num(cx.get(p, "sric")), sr - tm.div(const(m), const(n) * sr)))
    mean = lambda j: tm.div(tm.bigsum(n, lambda t: X.get(t, j)), n)
    std = lambda j: tm.sqrt(tm.div(tm.bigsum(n, lambda t: tm.power(X.get(t, j) - mean(j), 2)), n))
    cx.ensures("diversification ratio", tm.eq(cx.num(cx.get(p, "diversification")), tm.div(tm.bigsum(m, lambda j: w.get(j) * std(j)), sd)))


@contract("V04", "non-zero assets", [P + "nonzero_assets_index"])
def nonzero(cx):
    n, m, X, w, pw, c, f, args = portfolio(cx, costs=False)
    p = cx.new(Portfolio, X=X, weights=w, **args)
    ix = cx.arr(cx.get(p, "nonzero_assets_index"))
    big = lambda j: tm.lt(const(1e-5), tm.absval(w.get(j)))
    cx.ensures("only assets with a non-zero weight are listed", tm.forall(ix.shape[0], lambda q: tm.and_(tm.le(0, ix.get(q)), tm.lt(ix.get(q), m), big(ix.get(q)))))
    cx.ensures("every asset with a non-zero weight is listed", tm.forall(m, lambda j: tm.implies(big(j), tm.exists(ix.shape[0], lambda q: tm.eq(ix.get(q), j)))))


def _contribution(measure):
    @contract("V04", f"contribution to {measure.value}", [P + "contribution", "skfolio.portfolio._portfolio._compute_contribution", "skfolio.portfolio._portfolio._get_risk"], sym=False, runs=15)
    def contribution(cx):
        n = cx.dim("n_observations", 2, run=(3, 6), bnd=(2,))
        m = cx.dim("n_assets", 1, run=(1, 4), bnd=(2,))
        X = cx.array("X", (n, m))
        w = cx.array("weights", (m,), run=(-1, 1))
        fee = cx.real("management_fees", 0, run=(0, 0.01))
        h = cx.real("spacing", 0, strict=True, run=(1e-3, 0.1))
        args = dict(management_fees=fee, risk_free_rate=cx.real("risk_free_rate", run=(-0.01, 0.01)), compounded=cx.bool("compounded"))
        p = cx.new(Portfolio, X=X, weights=w, **args)
        got = cx.arr(cx.method(p, "contribution", measure, spacing=h))
        cx.ensures("one contribution per asset", tm.eq(got.shape[0], m))
        for j in range(m):

            def at(s):
                wj = cx.arr([w.get(i) + (const(h) * s if i == j else 0) for i in range(m)]) if not cx.run else from_list(cx, [tm.evaluate(w.get(i)) + (float(h) * s if i == j else 0) for i in range(m)])
                return cx.num(cx.get(cx.new(Portfolio, X=X, weights=wj, **args), measure.value))

            want = tm.mul(tm.div(at(1) - at(-1), 2 * const(h)), w.get(j))
            cx.ensures("contribution is the weight times the central difference of the measure", tm.eq(got.get(j), want), tol=1e-5)


def from_list(cx, xs):
    from pyvc.values import from_numpy

    return from_numpy(np.array(xs, dtype=float))


for _m in (RiskMeasure.VARIANCE, PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION, RiskMeasure.MAX_DRAWDOWN):
    _contribution(_m)


@contract("V04", "labelled inputs are matched by asset name", [P + "__init__", P + "get_weight", P + "composition", P + "weights_per_observation", "skfolio.utils.tools.input_to_array"], sym=False, bnd=False, runs=60)
def labelled(cx):
    n = cx.dim("n_observations", 1, run=(2, 5), bnd=(2,))
    m = cx.dim("n_assets", 1, run=(2, 5), bnd=(2,))
    X = cx.array("X", (n, m))
    w = cx.array("weights", (m,), run=(-1, 1), distinct=True)
    pw = cx.array("previous_weights", (m,), run=(-1, 1))
    c = cx.array("transaction_costs", (m,), run=(0, 0.02))
    order = cx.int("order", 0, run=(0, 10**6))
    drop = cx.int("dropped", 0, run=(0, 8))
    rng = np.random.default_rng(order)
    names = [f"asset {k}" for k in rng.permutation(m)]
    df = pd.DataFrame(X.real, columns=names, index=pd.date_range("2020-01-01", periods=n))
    perm = rng.permutation(m)
    wr = w.real.copy()
    if drop < m:
        wr[drop] = 0.0
    pick = lambda a: {names[k]: float(a[k]) for k in perm if not (a is wr and k == drop)}
    cx.total()
    p = Portfolio(X=df, weights=pick(wr), previous_weights=pick(pw.real), transaction_costs=pick(c.real))
    cost = (c.real * np.abs(pw.real - wr)).sum()
    cx.ensures("weights follow the asset names", const(bool(np.allclose(p.weights, wr))))
    cx.ensures("assets without a weight hold zero", const(bool(drop >= m or p.weights[drop] == 0)))
    cx.ensures("returns are the weighted asset returns minus costs", const(bool(np.allclose(p.returns, X.real @ wr - cost))))
    cx.ensures("observations are the index", const(bool((p.observations == df.index.to_numpy()).all())))
    cx.ensures("weight of an asset by name", const(all(np.isclose(p.get_weight(names[k]), wr[k]) for k in range(m))))
    big = [k for k in range(m) if abs(wr[k]) > 1e-5]
    comp = p.composition
    cx.ensures("composition lists each non-zero weight", const(sorted(comp.index) == sorted(names[k] for k in big) and all(np.isclose(comp.loc[names[k]].iloc[0], wr[k]) for k in big)))
    wpo = p.weights_per_observation
    cx.ensures("weights per observation repeat the weights", const(len(wpo) == n and all(np.allclose(wpo[names[k]], wr[k]) for k in big) and wpo.shape[1] == len(big)))
