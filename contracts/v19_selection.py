"""V19: pre-selection keeps exactly the assets its rule names."""

import datetime as dt

import numpy as np
import pandas as pd

from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio import PerfMeasure, RatioMeasure, RiskMeasure, measures
from skfolio import pre_selection as ps

P = "skfolio.pre_selection."


def _kept(cx, m, n):
    k = cx.arr(cx.get(m, "to_keep_"))
    cx.ensures("one flag per asset", tm.eq(k.shape[0], n))
    g = cx.arr(cx.method(m, "_get_support_mask"))
    cx.ensures("the support is the assets kept", tm.forall(n, lambda i: tm.iff(_b(g.get(i)), _b(k.get(i)))))
    return lambda i: _b(k.get(i))


def _b(x):
    return x if x.sort == "B" else tm.not_(tm.eq(x, 0))


@contract("V19", "assets of vanishing variance", [P + "DropZeroVariance.fit", P + "DropZeroVariance._get_support_mask"])
def zero_variance(cx):
    n, T = cx.dim("n_assets", 1, bnd=(2,)), cx.dim("n_observations", 2, bnd=(2,), run=(2, 6))
    X = cx.array("returns", (T, n))
    t = cx.real("threshold", run=(-0.001, 0.003))
    m = cx.new(ps.DropZeroVariance, threshold=t)
    k, _ = cx.attempt(cx.bound(m, "fit"), X)
    cx.ensures("a negative threshold, and only that, is refused", tm.iff(k == "raise", tm.lt(const(t), 0)))
    if k == "raise":
        return
    keep = _kept(cx, m, n)
    mean = lambda i: tm.bigsum(T, lambda t: X.get(t, i)) / const(T)
    var = lambda i: tm.bigsum(T, lambda t: tm.power(X.get(t, i) - mean(i), 2)) / const(T)
    cx.ensures("kept exactly when the variance exceeds the threshold", tm.forall(n, lambda i: tm.iff(keep(i), tm.lt(const(t), var(i)))))
    cx.unmodified(X)


@contract("V19", "assets with missing values", [P + "SelectComplete.fit", P + "SelectComplete._get_support_mask"])
def complete(cx):
    n, T = cx.dim("n_assets", 1, bnd=(2,)), cx.dim("n_observations", 2, bnd=(2, 3), run=(2, 6))
    X = cx.array("returns", (T, n), nan=True)
    inner = cx.bool("drop_assets_with_internal_nan")
    m = cx.new(ps.SelectComplete, drop_assets_with_internal_nan=inner)
    cx.method(m, "fit", X)
    keep = _kept(cx, m, n)
    miss = lambda t, i: const(X.nan(const(t), i))
    if inner:
        cx.ensures("kept exactly when no value is missing", tm.forall(n, lambda i: tm.iff(keep(i), tm.forall(T, lambda t: tm.not_(miss(t, i))))))
    else:
        cx.ensures("kept exactly when neither end is missing", tm.forall(n, lambda i: tm.iff(keep(i), tm.not_(tm.or_(miss(0, i), miss(const(T) - 1, i))))))
    cx.unmodified(X)


def _returns(cx, lo=2, hi=6, T=(5, 9)):
    n, t = cx.dim("n_assets", lo, run=(lo, hi)), cx.dim("n_observations", T[0], run=T)
    X = cx.array("returns", (t, n), run=(-0.05, 0.06), distinct=True).real
    return n, X


@contract("V19", "correlated assets", [P + "DropCorrelated.fit"], sym=False, bnd=False, runs=80)
def correlated(cx):
    n, X = _returns(cx, 2, 7)
    mode = cx.choice("shape", ["any", "factor", "mirrored"])
    if mode != "any":
        X = X[:, :1] * np.where(np.arange(n) % 2 & (mode == "mirrored"), -1, 1) + 0.4 * X
    thr = float(tm.numval(const(cx.real("threshold", run=(-0.3, 0.98)))))
    absolute = cx.bool("absolute")
    C = np.corrcoef(X.T)
    C = np.abs(C) if absolute else C
    keep = ps.DropCorrelated(threshold=thr, absolute=absolute).fit(X).get_support()
    pairs = [(C[i, j], i, j) for i in range(n) for j in range(i + 1, n) if C[i, j] > thr]
    cx.ensures("no two assets kept are correlated above the threshold", not [1 for _, i, j in pairs if keep[i] and keep[j]])
    cx.ensures("an asset without such a correlation is kept", all(keep[i] or any(i in p[1:] for p in pairs) for i in range(n)))
    gone, mean = set(), C.mean(axis=0)
    for _, i, j in sorted(pairs, key=lambda p: -p[0]):
        if i not in gone and j not in gone:
            gone.add(i if mean[i] > mean[j] else j)
    near = min([abs(a[0] - b[0]) for a in pairs for b in pairs if a is not b] + [1]) < 1e-9 or min([abs(mean[i] - mean[j]) for i in range(n) for j in range(i)]) < 1e-9
    cx.ensures("of the most correlated pairs first, the asset more correlated on average is dropped", near or gone == {i for i in range(n) if not keep[i]})


BEST = [RatioMeasure.SHARPE_RATIO, PerfMeasure.MEAN, RiskMeasure.CVAR, RiskMeasure.VARIANCE, RiskMeasure.MAX_DRAWDOWN]


def _score(m, r):
    if m == RatioMeasure.SHARPE_RATIO:
        return r.mean() / r.std(ddof=1)
    if m == RiskMeasure.MAX_DRAWDOWN:
        return measures.max_drawdown(measures.get_drawdowns(r))
    return getattr(measures, m.value)(r)


@contract("V19", "best and worst assets", [P + "SelectKExtremes.fit"], sym=False, bnd=False, runs=60)
def extremes(cx):
    n, X = _returns(cx, 1, 6)
    m, top, k = cx.choice("measure", BEST), cx.bool("highest"), cx.int("k", 1, None, run=(1, 7))
    if n > 1 and cx.bool("equal_assets"):
        X = np.array(X)
        X[:, n - 1] = X[:, 0]
    keep = ps.SelectKExtremes(k=k, measure=m, highest=top).fit(X).get_support()
    s = np.array([_score(m, X[:, i]) for i in range(n)]) * (1 if top else -1)
    cx.ensures("k assets are kept", int(np.sum(keep)) == min(int(k), int(n)))
    cx.ensures("the k assets with the most extreme measure are kept", bool(np.all(keep) or s[keep].min() >= s[~keep].max() - 1e-10 * (1 + np.abs(s).max())))


@contract("V19", "non-dominated assets", [P + "SelectNonDominated.fit"], sym=False, bnd=False, runs=60)
def non_dominated(cx):
    n, X = _returns(cx, 2, 6)
    fm = cx.choice("fitness_measures", [None, [PerfMeasure.MEAN, RiskMeasure.CVAR], [PerfMeasure.MEAN, RiskMeasure.VARIANCE, RiskMeasure.MAX_DRAWDOWN]])
    least = cx.choice("min_n_assets", [None, 2, 4])
    thr = float(tm.numval(const(cx.real("threshold", run=(-0.9, 0.5)))))
    keep = ps.SelectNonDominated(min_n_assets=least, threshold=thr, fitness_measures=fm).fit(X).get_support()
    kept = {i for i in range(n) if keep[i]}
    if least is not None and least >= n:
        cx.ensures("all assets are kept when that many are asked for", len(kept) == n)
        return
    W = list(np.eye(n))
    C, S = np.corrcoef(X.T), np.cov(X.T)
    for i in range(n):
        for j in range(i + 1, n):
            if C[i, j] < thr:
                w = np.zeros(n)
                w[i] = (S[j, j] - S[i, j]) / (S[i, i] + S[j, j] - 2 * S[i, j])
                w[j] = 1 - w[i]
                W.append(w)
    fit = [[_score(m, X @ w) * (1 if isinstance(m, (PerfMeasure, RatioMeasure)) else -1) for m in fm or [PerfMeasure.MEAN, RiskMeasure.VARIANCE]] for w in W]
    dom = lambda a, b: all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))
    left, fronts = set(range(len(W))), []
    while left:
        f = {i for i in left if not any(dom(fit[j], fit[i]) for j in left)}
        fronts.append(f)
        left -= f
    unions, acc = [], set()
    for f in fronts:
        for i in f:
            acc |= {k for k in range(n) if abs(W[i][k]) > 1e-5}
        unions.append(set(acc))
    cx.ensures("the assets of the first fronts are kept", kept in (unions if least is not None else unions[:1]))
    cx.ensures("at least the number of assets asked for", least is None or len(kept) >= least or len(kept) == n)
    if least is not None and len(unions) > 1 and kept != unions[0]:
        k = unions.index(kept)
        cx.ensures("no further front is added", k == 0 or len(unions[k - 1]) <= least)


@contract("V19", "expiring assets", [P + "SelectNonExpiring.fit"], sym=False, bnd=False, runs=60)
def expiring(cx):
    n, X = _returns(cx, 1, 5)
    start = pd.Timestamp("2020-01-29")
    names = [f"a{i}" for i in range(n)]
    df = pd.DataFrame(X, columns=names, index=pd.bdate_range(start, periods=len(X)))
    look, delta = cx.choice("lookahead", [(pd.DateOffset(months=1), None), (dt.timedelta(days=5), 5), (pd.offsets.BusinessDay(2), None)])
    days = [cx.int(f"days_{i}", run=(-3, 40)) for i in range(n)]
    known = cx.int("without_date", 0, n, run=(0, n))
    dates = {names[i]: df.index[-1] + dt.timedelta(days=days[i]) for i in range(n) if i != known}
    if cx.bool("edge") and n > 1:
        dates[names[0]] = df.index[-1] + look
    keep = ps.SelectNonExpiring(expiration_dates=dates, expiration_lookahead=look).fit(df).get_support()
    cut = df.index[-1] + look
    cx.ensures("kept exactly when it expires after the lookahead or never", [bool(k) for k in keep] == [a not in dates or dates[a] > cut for a in names])


@contract("V19", "selected columns", [P + "DropZeroVariance.fit"], sym=False, bnd=False, runs=30)
def columns(cx):
    n, X = _returns(cx, 2, 6)
    flat = [cx.bool(f"flat_{i}") for i in range(n)]
    X = np.where(flat, 0.01, X)
    if all(flat):
        raise Discard()
    m = cx.choice("selector", [ps.DropZeroVariance(), ps.SelectComplete(True)])
    if isinstance(m, ps.SelectComplete):
        X = X.copy()
        X[1, flat] = np.nan
    Y = m.fit_transform(X)
    cx.ensures("the columns kept are returned unchanged and in order", bool(np.array_equal(Y, X[:, [i for i in range(n) if not flat[i]]])))
