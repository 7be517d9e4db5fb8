"""V15: composed allocations combine their parts' weights."""

import numpy as np
import pandas as pd
import sklearn.base as skb
import sklearn.model_selection as sks

from contracts.v14_hierarchical import GivenClustering, GivenDistance
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from pyvc.values import SArr, SDict, SList, SObj, from_numpy
from skfolio import RatioMeasure
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.optimization import BaseOptimization, EqualWeighted, InverseVolatility, NestedClustersOptimization, StackingOptimization

NCO = ["skfolio.optimization.NestedClustersOptimization.fit"]
STACK = ["skfolio.optimization.StackingOptimization.fit"]


class Mean(BaseOptimization):
    """weights that reveal the data of the fit"""

    def __init__(self, scale=1, portfolio_params=None):
        self.scale, self.portfolio_params = scale, portfolio_params

    def fit(self, X, y=None):
        A = np.asarray(X)
        self.weights_ = self.scale * (A.mean(axis=0) + 1)
        return self

    def predict(self, X):
        return np.asarray(X) @ self.weights_


LABELS = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 1, 2], [0, 0, 0], [0, 1, 1, 0], [2, 0, 1, 0], [1, 1, 0, 0]]


def _mean(X, T, i):
    return tm.bigsum(T, lambda t: X.get(t, i)) / const(T) + 1


@contract("V15", "nested clusters", NCO, bnd=False, runs=30, bound="3 or 4 assets in the listed clusters, any returns", tol=1e-6)
def nested(cx):
    labels = cx.choice("labels", LABELS)
    n, T = len(labels), cx.dim("n_observations", 1, run=(2, 6))
    X = cx.array("returns", (T, n))
    s = cx.real("outer_scale", run=(0.5, 2))
    k = max(labels) + 1
    lab = np.array(labels)
    if cx.run:
        m = NestedClustersOptimization(inner_estimator=Mean(), outer_estimator=Mean(scale=float(tm.numval(const(s)))), distance_estimator=GivenDistance(value=np.zeros((n, n))), clustering_estimator=GivenClustering(labels=lab, n_clusters=k), cv="ignore", n_jobs=1)
        m.fit(X.real)
        w = from_numpy(m.weights_)
    else:
        d = SObj(GivenDistance, dict(value=from_numpy(np.zeros((n, n)))))
        c = SObj(GivenClustering, dict(linkage=None, labels=from_numpy(lab), n_clusters=k))
        m = cx.new(NestedClustersOptimization, inner_estimator=SObj(Mean, dict(scale=1, portfolio_params=None)), outer_estimator=SObj(Mean, dict(scale=s, portfolio_params=None)), distance_estimator=d, clustering_estimator=c, cv="ignore")
        cx.method(m, "fit", X)
        w = cx.arr(cx.get(m, "weights_"))
    size = [labels.count(c) for c in range(k)]
    inner = lambda i: const(1) if size[labels[i]] == 1 else _mean(X, T, i)
    series = lambda t, c: sum((X.get(t, i) * inner(i) for i in range(n) if labels[i] == c), const(0))
    outer = lambda c: const(s) * (tm.bigsum(T, lambda t: series(t, c)) / const(T) + 1)
    for i in range(n):
        cx.ensures("weight of an asset: its share of the cluster times the share of the cluster", tm.eq(w.get(i), inner(i) * outer(labels[i])))
    cx.unmodified(X)


@contract("V15", "stacking", STACK, bnd=False, runs=30, bound="1 to 3 models, any returns and number of assets", tol=1e-6)
def stacking(cx):
    k = cx.choice("n_estimators", [1, 2, 3])
    n, T = cx.dim("n_assets", 1, run=(1, 4)), cx.dim("n_observations", 1, run=(2, 6))
    X = cx.array("returns", (T, n))
    ss = [cx.real(f"scale_{i}", run=(0.5, 2)) for i in range(k)]
    s = cx.real("outer_scale", run=(0.5, 2))
    if cx.run:
        f = lambda v: float(tm.numval(const(v)))
        m = StackingOptimization(estimators=[(f"m{i}", Mean(scale=f(v))) for i, v in enumerate(ss)], final_estimator=Mean(scale=f(s)), cv="ignore", n_jobs=1).fit(X.real)
        w = from_numpy(m.weights_)
    else:
        es = SList([SList([f"m{i}", SObj(Mean, dict(scale=v, portfolio_params=None))], is_tuple=True) for i, v in enumerate(ss)])
        m = cx.new(StackingOptimization, estimators=es, final_estimator=SObj(Mean, dict(scale=s, portfolio_params=None)), cv="ignore")
        cx.method(m, "fit", X)
        w = cx.arr(cx.get(m, "weights_"))
    inner = lambda e, i: const(ss[e]) * _mean(X, T, i)
    series = lambda t, e: tm.bigsum(n, lambda i: X.get(t, i) * inner(e, i))
    outer = lambda e: const(s) * (tm.bigsum(T, lambda t: series(t, e)) / const(T) + 1)
    cx.ensures("weights are those of the models, weighted by the final model", tm.forall(n, lambda i: tm.eq(w.get(i), sum((outer(e) * inner(e, i) for e in range(k)), const(0)))))
    cx.unmodified(X)


# ------------------------------------------------ with cross-validation, bounded
class Model(BaseOptimization):
    def __init__(self, power=1, portfolio_params=None):
        self.power, self.portfolio_params = power, portfolio_params

    def fit(self, X, y=None):
        A = np.asarray(X, dtype=float)
        self.n_features_in_ = A.shape[1]
        self.y_ = None if y is None else np.asarray(y)
        self.X_ = A
        v = A.std(axis=0) ** -self.power * (1 + (0 if y is None else 0.1 * np.tanh(100 * np.asarray(y, dtype=float).mean())))
        self.weights_ = v / v.sum() * (1 if y is None else 1)
        return self


class Backwards(sks.KFold):
    """folds that are not in the order of the data"""

    def split(self, X, y=None, groups=None):
        return iter(list(super().split(X, y, groups))[::-1])


def _case(cx):
    n, T = int(cx.dim("n_assets", 3, run=(3, 6))), int(cx.dim("n_observations", 24, run=(24, 36)))
    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    X = rng.normal(0, 0.01, (T, n)) * rng.uniform(0.5, 2, n)
    y = rng.normal(0, 0.01, (T, int(rng.integers(1, n + 1)))) if cx.bool("factors") else None
    cv = dict(folds=sks.KFold(3), backwards=Backwards(3), walk=WalkForward(train_size=8, test_size=5), ignore="ignore", paths=CombinatorialPurgedCV(n_folds=4, n_test_folds=2))[cx.choice("cross_validation", ["folds", "walk", "ignore", "paths", "backwards"])]
    q = float(cx.choice("quantile", [0.3, 0.5, 1.0]))
    return n, T, rng, X, y, cv, q


def _series(m, X, y, cv, q, cols=None):
    """out-of-sample returns of a model, rows they belong to"""
    A = X if cols is None else X[:, cols]
    if isinstance(cv, str):
        return A @ skb.clone(m).fit(A, y).weights_, np.arange(len(X))
    if isinstance(cv, CombinatorialPurgedCV):
        pop = cross_val_predict(m, A, y, cv=cv, n_jobs=1)
        v = [p.sharpe_ratio for p in pop]
        return pop.quantile(measure=RatioMeasure.SHARPE_RATIO, q=q).returns, np.arange(len(X))
    rows, out = [], []
    for tr, te in cv.split(X):
        out.append(A[te] @ skb.clone(m).fit(A[tr], None if y is None else y[tr]).weights_)
        rows.append(te)
    rows, out = np.concatenate(rows), np.concatenate(out)
    o = np.argsort(rows)
    return out[o], rows[o]


def _final(cx, got, Z, y, rows):
    cx.ensures("the final model is fitted on the out-of-sample returns of the parts", bool(got.X_.shape == Z.shape and np.allclose(got.X_, Z)))
    cx.ensures("with the factors of the same observations", (got.y_ is None) if y is None else bool(got.y_.shape[0] == len(rows) and np.allclose(got.y_, y[rows])))


@contract("V15", "nested clusters with cross-validation", NCO, sym=False, bnd=False, runs=50)
def nested_cv(cx):
    n, T, rng, X, y, cv, q = _case(cx)
    labels = np.array([*range(2), *rng.integers(0, 3 if n > 3 else 2, n - 2)])
    labels = np.unique(labels, return_inverse=True)[1]
    k = labels.max() + 1
    inner, outer = Model(), Model(power=2)
    m = NestedClustersOptimization(inner_estimator=inner, outer_estimator=outer, distance_estimator=GivenDistance(value=np.zeros((n, n))), clustering_estimator=GivenClustering(labels=labels, n_clusters=k), cv=cv, quantile=q, n_jobs=1).fit(X, y)
    W, Z, rows = np.zeros((k, n)), [], np.arange(T)
    if not isinstance(cv, (str, CombinatorialPurgedCV)):
        rows = np.sort(np.concatenate([t for _, t in cv.split(X)]))
    for c in range(k):
        ids = np.flatnonzero(labels == c)
        if len(ids) == 1:
            W[c, ids] = 1
            Z.append(X[rows][:, ids[0]])
        else:
            W[c, ids] = skb.clone(inner).fit(X[:, ids], y).weights_
            Z.append(_series(inner, X, y, cv, q, ids)[0])
    Z = np.array(Z).T
    _final(cx, m.outer_estimator_, Z, y, rows)
    cx.ensures("weights combine the clusters", bool(np.allclose(m.weights_, m.outer_estimator_.weights_ @ W)) and bool(np.isclose(m.weights_.sum(), 1)))


@contract("V15", "stacking with cross-validation", STACK, sym=False, bnd=False, runs=50)
def stacking_cv(cx):
    n, T, rng, X, y, cv, q = _case(cx)
    ms = [("a", Model()), ("b", Model(power=3)), ("c", Model(power=-1))][: int(rng.integers(2, 4))]
    m = StackingOptimization(estimators=ms, final_estimator=Model(power=2), cv=cv, quantile=q, n_jobs=1).fit(X, y)
    W = np.array([skb.clone(e).fit(X, y).weights_ for _, e in ms])
    zs = [_series(e, X, y, cv, q) for _, e in ms]
    _final(cx, m.final_estimator_, np.array([z for z, _ in zs]).T, y, zs[0][1])
    cx.ensures("weights combine the models", bool(np.allclose(m.weights_, m.final_estimator_.weights_ @ W)) and bool(np.isclose(m.weights_.sum(), 1)))
    cx.ensures("models by name", list(m.named_estimators_) == [a for a, _ in ms] and all(np.allclose(m.named_estimators_[a].weights_, w) for (a, _), w in zip(ms, W)))


@contract("V15", "stacking of fitted models", STACK, sym=False, bnd=False, runs=20)
def stacking_fitted(cx):
    n, T, rng, X, y, cv, q = _case(cx)
    ms = [("a", Model().fit(rng.normal(0, 0.01, (9, n)))), ("b", Model(power=3).fit(rng.normal(0, 0.01, (9, n))))]
    W = np.array([e.weights_.copy() for _, e in ms])
    m = StackingOptimization(estimators=ms, final_estimator=Model(power=2), cv="prefit", n_jobs=1).fit(X, y)
    _final(cx, m.final_estimator_, X @ W.T, y, np.arange(T))
    cx.ensures("fitted models are kept", all(np.array_equal(e.weights_, w) for (_, e), w in zip(ms, W)))
    cx.ensures("weights combine the fitted models", bool(np.allclose(m.weights_, m.final_estimator_.weights_ @ W)))


@contract("V15", "models replaced by name", ["skfolio.optimization.StackingOptimization.set_params", "skfolio.optimization.StackingOptimization.get_params"], sym=False, bnd=False, runs=20)
def by_name(cx):
    k = cx.choice("n_estimators", [1, 2, 3])
    m = StackingOptimization(estimators=[(f"m{i}", Mean(scale=i)) for i in range(k)])
    given = m.estimators
    j = cx.choice("position", [0, 1, 2]) % k
    how = cx.choice("how", ["replace", "parameter", "both", "list"])
    new = Mean(scale=99)
    if how == "replace":
        m.set_params(**{f"m{j}": new})
    elif how == "parameter":
        m.set_params(**{f"m{j}__scale": 99})
    elif how == "both":
        m.set_params(**{f"m{j}": new, f"m{j}__portfolio_params": {"name": "z"}, "quantile": 0.2})
        cx.ensures("other parameters are set too", m.quantile == 0.2 and m.estimators[j][1].portfolio_params == {"name": "z"})
    else:
        m.set_params(estimators=[("z", new)])
        cx.ensures("the list is replaced", [a for a, _ in m.estimators] == ["z"])
        return
    cx.ensures("the named model only changes", [(a, e.scale) for a, e in m.estimators] == [(f"m{i}", 99 if i == j else i) for i in range(k)])
    p = m.get_params()
    cx.ensures("parameters read back", p[f"m{j}__scale"] == 99 and p[f"m{j}"] is m.estimators[j][1])


@contract("V15", "refused names", STACK, sym=False, bnd=False, runs=15)
def refused(cx):
    X = cx.array("returns", (8, 2), distinct=True).real
    bad = cx.choice("estimators", [[("a", Model()), ("a", Model())], [("a__b", Model())], [("cv", Model())], [], None])
    try:
        StackingOptimization(estimators=bad, final_estimator=Model(), cv="ignore").fit(X)
        ok = False
    except Exception:
        ok = True
    cx.ensures("ambiguous or missing models are refused", ok)
