"""V03: out-of-sample predictions come from models fitted on the training data only."""

import numpy as np
import pandas as pd
import sklearn.base as skb
import sklearn.model_selection as sks

from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from pyvc.values import SArr, SDict, SList, SObj
from skfolio import MultiPeriodPortfolio, Population, Portfolio
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.optimization import BaseOptimization, EqualWeighted, InverseVolatility
from skfolio.utils import tools as ut

FP = ["skfolio.utils.tools.fit_and_predict"]
CV = ["skfolio.model_selection.cross_val_predict"]


class Recorder(skb.BaseEstimator):
    """estimator whose predictions are the data it saw"""

    def __init__(self):
        pass

    def fit(self, X, y=None, w=None):
        self.seen_ = (X, y, w)
        return self

    def predict(self, X):
        return (self.seen_, X)


def pair(n, m, f):
    return tm.forall(n, lambda i: tm.forall(m, lambda j: f(i, j)))


def _ids(cx, name, n, hi):
    k = cx.dim("n_" + name, 1, bnd=(1, 2), run=(1, 4))
    a = cx.array(name, (k,), "I", lo=0, hi=const(hi) - 1, run=(0, int(hi) - 1) if cx.run else None)
    return k, a


@contract("V03", "fit on the training rows, predict the test rows", FP)
def fit_predict(cx):
    T, n, q = cx.dim("n_observations", 1, bnd=(3,), run=(2, 6)), cx.dim("n_assets", 1, bnd=(2,), run=(1, 4)), cx.dim("n_factors", 1, bnd=(1,), run=(1, 3))
    X, y, w = cx.array("X", (T, n)), cx.array("y", (T, q)), cx.array("w", (T, n))
    a, train = _ids(cx, "train", T, T)
    tests = [_ids(cx, f"test_{i}", T, T) for i in range(cx.choice("n_tests", [1, 2]))]
    listed = len(tests) > 1 or cx.bool("as_list")
    given, routed, cut = cx.bool("given_y"), cx.bool("given_parameter"), cx.bool("columns")
    c, cols = _ids(cx, "columns", n, n) if cut else (n, None)
    at = (lambda j: cols.get(j)) if cut else (lambda j: j)
    m = cx.new(Recorder)
    kw = dict(train=train, test=[t for _, t in tests] if listed else tests[0][1], fit_params={"w": w} if routed else {}, method="predict", column_indices=cols)
    r = cx.call(ut.fit_and_predict, m, X, y if given else None, **kw)
    out = cx.seq(r) if listed else [r]
    cx.ensures("one prediction per test set", len(out) == len(tests))
    for (k, test), o in zip(tests, out):
        seen, Z = cx.seq(o)
        A, b, v = cx.seq(seen)
        A, Z = cx.arr(A), cx.arr(Z)
        cx.ensures("fitted on the training rows and selected assets only", tm.and_(tm.eq(A.shape[0], a), tm.eq(A.shape[1], c), pair(a, c, lambda i, j: tm.eq(A.get(i, j), X.get(train.get(i), at(j))))))
        cx.ensures("predicts the test rows and selected assets", tm.and_(tm.eq(Z.shape[0], k), tm.eq(Z.shape[1], c), pair(k, c, lambda i, j: tm.eq(Z.get(i, j), X.get(test.get(i), at(j))))))
        if given:
            b = cx.arr(b)
            cx.ensures("targets of the training rows", tm.and_(tm.eq(b.shape[0], a), tm.eq(b.shape[1], q), pair(a, q, lambda i, j: tm.eq(b.get(i, j), y.get(train.get(i), j)))))
        else:
            cx.ensures("no target stays none", b is None)
        if routed:
            v = cx.arr(v)
            cx.ensures("fit parameters of the training rows", tm.and_(tm.eq(v.shape[0], a), pair(a, n, lambda i, j: tm.eq(v.get(i, j), w.get(train.get(i), j)))))
    cx.unmodified(X, y, w, train)


@contract("V03", "fit on selected rows or columns", ["skfolio.utils.tools.fit_single_estimator"])
def fit_single(cx):
    T, n, q = cx.dim("n_observations", 1, bnd=(2,), run=(2, 6)), cx.dim("n_assets", 1, bnd=(2,), run=(1, 4)), cx.dim("n_factors", 1, bnd=(1,), run=(1, 3))
    X, y, w = cx.array("X", (T, n)), cx.array("y", (T, q)), cx.array("w", (T, n))
    axis = cx.choice("axis", [0, 1])
    k, ids = _ids(cx, "indices", T if axis == 0 else n, T if axis == 0 else n)
    m = cx.new(Recorder)
    r = cx.call(ut.fit_single_estimator, m, X, y, {"w": w}, indices=ids, axis=axis)
    A, b, v = (cx.arr(z) for z in cx.seq(cx.get(r, "seen_")))
    if axis == 0:
        cx.ensures("selected rows", tm.and_(tm.eq(A.shape[0], k), pair(k, n, lambda i, j: tm.and_(tm.eq(A.get(i, j), X.get(ids.get(i), j)), tm.eq(v.get(i, j), w.get(ids.get(i), j)))), pair(k, q, lambda i, j: tm.eq(b.get(i, j), y.get(ids.get(i), j)))))
    else:
        cx.ensures("selected columns, all the factors", tm.and_(tm.eq(A.shape[1], k), pair(T, k, lambda i, j: tm.and_(tm.eq(A.get(i, j), X.get(i, ids.get(j))), tm.eq(v.get(i, j), w.get(i, ids.get(j))))), tm.eq(b.shape[1], q), pair(T, q, lambda i, j: tm.eq(b.get(i, j), y.get(i, j)))))
    cx.unmodified(X, y, w, ids)


class Folds(sks.BaseCrossValidator):
    """cross-validation with given folds"""

    def __init__(self, folds):
        self.folds = folds

    def split(self, X, y=None, groups=None):
        return self.folds


def _assembly(K):
    @contract("V03", f"assembly of {K} folds", CV, bnd=False, runs=20, bound=f"{K} folds of any size and order")
    def c(cx):
        T, n = cx.dim("n_observations", K, run=(2 * K, 4 * K)), cx.dim("n_assets", 1, run=(1, 3))
        X = cx.array("X", (T, n))
        fs = []
        if cx.run:
            cut = sorted(cx.r.rng.sample(range(1, int(T)), K - 1))
            parts = np.split(np.arange(int(T)), cut)
            cx.r.rng.shuffle(parts)
            fs = [(np.setdiff1d(np.arange(int(T)), t) if K > 1 else t, t) for t in parts]
            p = cross_val_predict(Mean(), X.real, cv=GivenCV(fs), n_jobs=1)
            order = sorted(range(K), key=lambda i: fs[i][1][0])
            for q, i in zip(p.portfolios, order):
                w = X.real[fs[i][0]].mean(axis=0)
                cx.ensures("each fold predicted by its own model, in order of time", bool(np.allclose(q.weights, w)) and bool(np.allclose(q.returns, X.real[fs[i][1]] @ w)))
            return
        for i in range(K):
            fs.append((_ids(cx, f"train_{i}", T, T), _ids(cx, f"test_{i}", T, T)))
        made = []

        def mpp(it, *a, **k):
            made.append(k)
            return None

        cx.it.models[MultiPeriodPortfolio] = mpp
        cv = SObj(Folds, dict(folds=SList([SList([tr, te], is_tuple=True) for (_, tr), (_, te) in fs])))
        k, r = cx.attempt(cross_val_predict, cx.new(Recorder), X, cv=cv)
        if k == "raise":
            return
        ps = cx.seq(made[0]["portfolios"])
        cx.ensures("one portfolio per fold", len(ps) == K)
        first = [te.get(0) for _, (_, te) in fs]
        got = []
        for p in ps:
            seen, Z = cx.seq(p)
            A, Z = cx.arr(cx.seq(seen)[0]), cx.arr(Z)
            ok = lambda a, tr, k, te: tm.and_(tm.eq(A.shape[0], a), tm.eq(Z.shape[0], k), pair(a, n, lambda i, j: tm.eq(A.get(i, j), X.get(tr.get(i), j))), pair(k, n, lambda i, j: tm.eq(Z.get(i, j), X.get(te.get(i), j))))
            got.append([ok(a, tr, k, te) for (a, tr), (k, te) in fs])
        for i in range(K):
            # the fold with exactly i folds before it comes at place i
            for f in range(K):
                rank = sum((tm.ind(tm.lt(first[g], first[f])) for g in range(K) if g != f), const(0))
                cx.ensures("each fold predicted by its own model, in order of time", tm.implies(tm.and_(tm.eq(rank, i), *[tm.not_(tm.eq(first[g], first[f])) for g in range(K) if g != f]), got[i][f]))

    return c


for _k in (1, 2, 3):
    _assembly(_k)


class Mean(BaseOptimization):
    """weights that reveal the data of the fit: the mean of each asset"""

    def __init__(self, portfolio_params=None):
        self.portfolio_params = portfolio_params

    def fit(self, X, y=None, w=None):
        A = np.asarray(X, dtype=float)
        self.n_features_in_ = A.shape[1]
        if hasattr(X, "columns"):
            self.feature_names_in_ = np.array(X.columns, dtype=object)
        self.weights_ = A.mean(axis=0) + (0 if y is None else np.asarray(y, dtype=float).mean()) + (0 if w is None else np.asarray(w).mean(axis=0))
        return self


class GivenCV(sks.BaseCrossValidator):
    def __init__(self, folds):
        self.folds = folds

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.folds)

    def split(self, X, y=None, groups=None):
        yield from self.folds


def _case(cx):
    n, T, q = int(cx.dim("n_assets", 2, run=(2, 4))), int(cx.dim("n_observations", 24, run=(24, 40))), 2
    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    idx = pd.date_range("2021-01-01", periods=T)
    X = pd.DataFrame(rng.normal(0, 0.01, (T, n)), columns=[f"a{i}" for i in range(n)], index=idx)
    y = pd.DataFrame(rng.normal(0, 0.01, (T, q)), index=idx, columns=["f", "g"]) if cx.bool("factors") else None
    cols = rng.permutation(n)[: rng.integers(1, n + 1)] if cx.bool("columns") else None
    return n, T, rng, X, y, cols


def _weights(X, y, train, cols):
    A = X.to_numpy() if cols is None else X.to_numpy()[:, cols]
    return A[train].mean(axis=0) + (0 if y is None else y.to_numpy()[train].mean()), A


@contract("V03", "one model per fold, folds in order of time", CV, sym=False, bnd=False, runs=60)
def folds(cx):
    n, T, rng, X, y, cols = _case(cx)
    kind = cx.choice("cross_validation", ["k-fold", "walk forward", "unordered", "number"])
    if kind == "k-fold":
        cv = sks.KFold(int(rng.integers(2, 5)))
    elif kind == "walk forward":
        cv = WalkForward(train_size=int(rng.integers(4, 8)), test_size=int(rng.integers(2, 6)), purged_size=int(rng.integers(0, 2)), expend_train=bool(rng.integers(2)))
    elif kind == "number":
        cv = 3
    else:
        cut = np.sort(rng.choice(np.arange(1, T), 3, replace=False))
        parts = np.split(np.arange(T), cut)
        order = rng.permutation(len(parts))
        cv = GivenCV([(np.setdiff1d(np.arange(T), parts[i]), parts[i]) for i in order])
    splits = list(sks.check_cv(cv).split(X, y))
    p = cross_val_predict(Mean(), X, y, cv=cv, column_indices=cols, portfolio_params=dict(name="z", annualized_factor=12), n_jobs=1)
    splits = sorted(splits, key=lambda s: s[1][0])
    ok = len(p.portfolios) == len(splits)
    cx.ensures("one portfolio per fold", ok)
    for q, (train, test) in zip(p.portfolios, splits):
        w, A = _weights(X, y, train, cols)
        cx.ensures("each portfolio has the weights fitted on the training rows of its fold", bool(np.allclose(q.weights, w)))
        cx.ensures("and the returns of its test rows", bool(np.allclose(q.returns, A[test] @ w)) and list(q.observations) == list(X.index[test]))
    cx.ensures("the observations of all folds in order", list(p.observations) == sorted(p.observations) and len(p.returns) == sum(len(t) for _, t in splits))
    cx.ensures("portfolio parameters are applied", p.name == "z" and p.annualized_factor == 12)


@contract("V03", "every combinatorial path covers all the observations", CV, sym=False, bnd=False, runs=40)
def paths(cx):
    n, T, rng, X, y, cols = _case(cx)
    f = int(rng.integers(3, 6))
    k = int(rng.integers(1, f - 1)) if f > 3 else 1
    if k < 2:
        k = 2
    cv = CombinatorialPurgedCV(n_folds=max(f, k + 1), n_test_folds=k, purged_size=int(rng.integers(0, 2)), embargo_size=int(rng.integers(0, 2)))
    pop = cross_val_predict(Mean(), X, y, cv=cv, column_indices=cols, portfolio_params=dict(name="z"), n_jobs=1)
    splits = list(cv.split(X))
    fits = {}
    for train, tests in splits:
        w, A = _weights(X, y, train, cols)
        for t in tests:
            fits.setdefault(tuple(t), []).append(w)
    cx.ensures("one path per documented count", len(pop) == cv.n_test_paths and isinstance(pop, Population))
    used = {}
    for i, p in enumerate(pop):
        cx.ensures("paths are named in order", p.name == f"z_{i}")
        cx.ensures("a path covers every observation once, in order", list(p.observations) == list(X.index))
        s = 0
        for q in p.portfolios:
            t = tuple(range(s, s + len(q.returns)))
            s += len(q.returns)
            ws = fits.get(t, [])
            hit = [j for j, w in enumerate(ws) if np.allclose(w, q.weights) and np.allclose(q.returns, A[list(t)] @ w)]
            cx.ensures("every part comes from a model trained without its observations", bool(hit))
            used.setdefault(t, []).append(hit)
    cx.ensures("every fitted model is used exactly once per test fold", all(len(used[t]) == len(ws) and {j for h in used[t] for j in h} == set(range(len(ws))) for t, ws in fits.items()))


@contract("V03", "shuffled or repeated folds are refused", CV, sym=False, bnd=False, runs=20)
def refused(cx):
    n, T, rng, X, y, cols = _case(cx)
    kind = cx.choice("folds", ["shuffled", "repeated", "unordered rows"])
    ids = np.arange(T)
    if kind == "shuffled":
        cv = sks.KFold(3, shuffle=True, random_state=1)
    elif kind == "repeated":
        cv = GivenCV([(ids[:6], ids[6:10]), (ids[:6], ids[9:14])])
    else:
        cv = GivenCV([(ids[:6], ids[6:10][::-1])])
    try:
        cross_val_predict(Mean(), X, y, cv=cv, n_jobs=1)
        ok = False
    except ValueError:
        ok = True
    cx.ensures("refused", ok)


@contract("V03", "fit parameters of the training rows and selected assets", CV, sym=False, bnd=False, runs=15)
def routed(cx):
    import sklearn as sk

    n, T, rng, X, y, cols = _case(cx)
    w = rng.normal(0, 1, (T, n))
    W = pd.DataFrame(w, columns=X.columns, index=X.index) if cx.bool("frame") else w
    with sk.config_context(enable_metadata_routing=True):
        p = cross_val_predict(Mean().set_fit_request(w=True), X, y, cv=sks.KFold(3), params={"w": W}, column_indices=cols, n_jobs=1)
    for q, (train, test) in zip(p.portfolios, sks.KFold(3).split(X)):
        v, A = _weights(X, y, train, cols)
        v = v + (w if cols is None else w[:, cols])[train].mean(axis=0)
        cx.ensures("fit parameters follow", bool(np.allclose(q.weights, v)))
