"""V18: parameters given by name reach the asset of that name."""

import warnings

import numpy as np
import pandas as pd

from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio import optimization as op
from skfolio import prior as pr
from skfolio.moments import ImpliedCovariance
from skfolio.utils import tools as ut

U = "skfolio.utils.tools."


@contract("V18", "array parameter", [U + "input_to_array"])
def array(cx):
    n, k = cx.dim("n_assets", 1, bnd=(2,)), cx.dim("size", 1, bnd=(1, 2))
    a = cx.array("values", (k,), nan=True)
    st, r = cx.attempt(ut.input_to_array, items=a, n_assets=n, fill_value=0, dim=1, assets_names=None, name="p")
    bad = tm.or_(tm.not_(tm.eq(k, n)), tm.exists(k, lambda i: const(a.nan(i))))
    cx.ensures("refused exactly when its size is wrong or a value is missing", tm.iff(st == "raise", bad))
    if st == "ok":
        r = cx.arr(r)
        cx.ensures("the values are kept in order", tm.forall(n, lambda i: tm.eq(r.get(i), a.get(i))))
    cx.unmodified(a)


@contract("V18", "rows and columns", [U + "safe_indexing", U + "safe_split"])
def split(cx):
    T, n, k = cx.dim("n_observations", 1, bnd=(2,)), cx.dim("n_assets", 1, bnd=(2,)), cx.dim("n_selected", 1, bnd=(1, 2))
    q = cx.dim("n_factors", 1, bnd=(1, 2))
    X, y = cx.array("X", (T, n)), cx.array("y", (T, q))
    axis = cx.choice("axis", [0, 1])
    m = T if axis == 0 else n
    idx = cx.array("indices", (k,), sort="I", lo=0, hi=const(m) - 1, run=(0, m - 1 if cx.run else 0))
    given = cx.bool("given_y")
    a, b = cx.seq(cx.call(ut.safe_split, X, y if given else None, indices=idx, axis=axis))
    a = cx.arr(a)
    at = (lambda M, i, j: M.get(idx.get(i), j)) if axis == 0 else (lambda M, i, j: M.get(j, idx.get(i)))
    get = (lambda M, i, j: M.get(i, j)) if axis == 0 else (lambda M, i, j: M.get(j, i))
    o = n if axis == 0 else T
    cx.ensures("exactly the rows or columns named, in order", tm.and_(tm.eq(a.shape[axis], k), tm.forall(k, lambda i: tm.forall(o, lambda j: tm.eq(get(a, i, j), at(X, i, j))))))
    if given:
        b = cx.arr(b)
        if axis == 0:
            cx.ensures("the targets follow the rows", tm.forall(k, lambda i: tm.forall(q, lambda j: tm.eq(get(b, i, j), at(y, i, j)))))
        else:
            cx.ensures("the targets are kept entire", tm.and_(tm.eq(b.shape[1], q), tm.forall(T, lambda i: tm.forall(q, lambda j: tm.eq(b.get(i, j), y.get(i, j))))))
    else:
        cx.ensures("no target stays none", b is None)
    cx.unmodified(X, y)


@contract("V18", "named parameter", [U + "input_to_array", U + "validate_input_list", U + "deduplicate_names", U + "get_feature_names"], sym=False, bnd=False, runs=80)
def named(cx):
    n = cx.dim("n_assets", 1, run=(1, 6))
    names = np.array([f"a{i}" for i in range(n)], dtype=object)
    v = cx.array("values", (n,), run=(-1, 1)).real
    order = list(range(n))
    cx.r.rng.shuffle(order)
    keep = [i for i in order if cx.bool(f"given_{i}")]
    d = {names[i]: float(v[i]) for i in keep} | ({"other": 3.0} if cx.bool("other") else {})
    r = ut.input_to_array(items=d, n_assets=n, fill_value=0.25, dim=1, assets_names=names, name="p")
    cx.ensures("each asset gets its value, the others the default", [float(x) for x in r] == [float(v[i]) if i in keep else 0.25 for i in range(n)])
    # groups
    g = cx.int("n_groups", 1, None, run=(1, 3))
    groups = {names[i]: [f"g{k}_{(i + k) % 2}" for k in range(g)] for i in order}
    if g == 1 and cx.bool("scalar"):
        groups = {k: x[0] for k, x in groups.items()}
    r = ut.input_to_array(items=groups, n_assets=n, fill_value="", dim=2, assets_names=names, name="groups")
    cx.ensures("groups stay with their asset, its own name first", [list(x) for x in r] == [list(names)] + [[f"g{k}_{(i + k) % 2}" for i in range(n)] for k in range(g)])
    pick = order[: 1 + n // 2]
    by = cx.bool("by_name")
    got = ut.validate_input_list([str(names[i]) if by else i for i in pick], n_assets=n, assets_names=names, name="p")
    cx.ensures("names and positions select the same assets", got == pick)
    cx.ensures("the names of the columns", list(ut.get_feature_names(pd.DataFrame(np.ones((2, n)), columns=list(names)))) == list(names))
    raw = [cx.choice(f"name_{i}", ["a", "b", "a_1", "a_1_1"]) for i in range(n)]
    out = ut.deduplicate_names(raw)
    cx.ensures("deduplicated names are distinct", len(set(out)) == n)
    cx.ensures("the first of each name keeps it", all(out[i] == raw[i] for i in range(n) if raw[i] not in raw[:i] and raw[i] not in out[:i]))


def _fits(m, X):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return m.fit(X).weights_


PER_ASSET = dict(min_weights=(0.0, 0.1), max_weights=(0.5, 0.9), transaction_costs=(0.0, 0.003), management_fees=(0.0, 0.003), previous_weights=(0.0, 0.5))


def _frame(cx, lo=3, hi=5):
    n, T = cx.dim("n_assets", lo, run=(lo, hi)), cx.dim("n_observations", 20, run=(20, 30))
    X = cx.array("returns", (T, n), run=(-0.05, 0.06), distinct=True).real
    return n, pd.DataFrame(X, columns=[f"a{i}" for i in range(n)], index=pd.bdate_range("2020-01-01", periods=T))


@contract("V18", "optimisations by name", ["skfolio.optimization.MeanRisk.fit", "skfolio.optimization.RiskBudgeting.fit", "skfolio.optimization.HierarchicalRiskParity.fit", "skfolio.optimization.MaximumDiversification.fit"], sym=False, bnd=False, runs=40)
def by_name(cx):
    n, X = _frame(cx)
    names = list(X.columns)
    cls = cx.choice("estimator", [op.MeanRisk, op.RiskBudgeting, op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution, op.MaximumDiversification])
    hierarchical = cls in (op.HierarchicalRiskParity, op.HierarchicalEqualRiskContribution)
    kw = {k: cx.array(k, (n,), lo=r[0], run=r, distinct=True).real for k, r in PER_ASSET.items() if cls not in (op.RiskBudgeting, op.MaximumDiversification) or k in ("min_weights", "max_weights", "previous_weights")}
    if cls is op.RiskBudgeting:
        kw = dict(risk_budget=cx.array("risk_budget", (n,), lo=0.1, run=(0.2, 2), distinct=True).real)
    extra = {}
    if cls is op.MeanRisk:
        extra = dict(objective_function=cx.choice("objective", [op.ObjectiveFunction.MAXIMIZE_UTILITY, op.ObjectiveFunction.MINIMIZE_RISK]), risk_aversion=20)
    order = list(range(n))
    cx.r.rng.shuffle(order)
    d = {k: {names[i]: float(v[i]) for i in order} for k, v in kw.items()}
    a = _fits(cls(**kw, **extra), X)
    b = _fits(cls(**d, **extra), X)
    cx.ensures("parameters by name and by position give the same weights", bool(np.allclose(a, b, atol=1e-6)))
    perm = order
    # the hierarchical clustering of permuted assets may mirror its dendrogram
    if not hierarchical:
        c = _fits(cls(**d, **extra), X[[names[i] for i in perm]])
        cx.ensures("reordering the assets reorders the weights", bool(np.allclose(c, a[perm], atol=2e-3)))


@contract("V18", "groups by name", ["skfolio.optimization.MeanRisk.fit"], sym=False, bnd=False, runs=25)
def groups(cx):
    n, X = _frame(cx, 4, 5)
    names = list(X.columns)
    lab = ["even" if i % 2 == 0 else "odd" for i in range(n)]
    order = list(range(n))
    cx.r.rng.shuffle(order)
    c = ["even <= 0.3", "a1 >= 0.2", "a1 <= a3 + 0.1"]
    w = _fits(op.MeanRisk(groups={names[i]: [lab[i]] for i in order}, linear_constraints=c), X)
    v = _fits(op.MeanRisk(groups=[names, lab], linear_constraints=c), X)
    cx.ensures("groups by name and by position give the same weights", bool(np.allclose(w, v, atol=1e-6)))
    cx.ensures("the constraints hold for the assets named", bool(w[::2].sum() <= 0.3 + 1e-5 and w[1] >= 0.2 - 1e-5 and w[1] <= w[3] + 0.1 + 1e-5))


@contract("V18", "weights and returns of a prediction", ["skfolio.optimization._base.BaseOptimization.predict"], sym=False, bnd=False, runs=30)
def prediction(cx):
    n, X = _frame(cx)
    m = cx.choice("estimator", [op.MeanRisk(), op.InverseVolatility(), op.EqualWeighted()]).fit(X[:15])
    p = m.predict(X[15:])
    cx.ensures("assets are the columns", list(p.assets) == list(X.columns))
    cx.ensures("the returns are those of the fitted weights on the new data", bool(np.allclose(p.returns, X[15:].to_numpy() @ m.weights_)))
    cx.ensures("observations are those of the new data", list(p.observations) == list(X.index[15:]))


@contract("V18", "views and implied volatilities by name", ["skfolio.prior.BlackLitterman.fit", "skfolio.moments.ImpliedCovariance.fit"], sym=False, bnd=False, runs=25)
def views(cx):
    n, X = _frame(cx)
    names = list(X.columns)
    order = list(range(n))
    cx.r.rng.shuffle(order)
    Y = X[[names[i] for i in order]]
    v = ["a0 == 0.002", "a1 - a2 == 0.001"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = pr.BlackLitterman(views=v).fit(X).prior_model_, pr.BlackLitterman(views=v).fit(Y).prior_model_
        cx.ensures("views follow the assets named", bool(np.allclose(a.mu[order], b.mu) and np.allclose(a.covariance[np.ix_(order, order)], b.covariance)))
        V = pd.DataFrame(np.abs(np.sin(np.arange(X.size).reshape(X.shape))) * 0.2 + 0.1, columns=names, index=X.index)
        m = ImpliedCovariance(volatility_risk_premium_adj=1.1, nearest=False)
        a, b = m.fit(X, implied_vol=V).covariance_, ImpliedCovariance(volatility_risk_premium_adj=1.1, nearest=False).fit(Y, implied_vol=V).covariance_
        cx.ensures("implied volatilities follow the assets named", bool(np.allclose(a[np.ix_(order, order)], b)))
