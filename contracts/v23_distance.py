"""V23: distances follow their definition and are distances."""

import numpy as np

from contracts._moments import GivenCovariance, given
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio import distance as sd
from skfolio.distance import _distance as mod
from skfolio.utils.stats import NBinsMethod

D = "skfolio.distance."


def pair(n, f):
    return tm.forall(n, lambda i: tm.forall(n, lambda j: f(i, j)))


def _both(cx, m):
    return cx.arr(cx.get(m, "codependence_")), cx.arr(cx.get(m, "distance_"))


def _spec(cx, n, corr, c, d, absolute, power):
    k = lambda i, j: tm.absval(corr(i, j)) if absolute else corr(i, j)
    p = lambda i, j: tm.power(k(i, j), power)
    lowest = -1 if not absolute and power % 2 else 0
    clip = lambda x: tm.ite(tm.lt(x, 0), 0, tm.ite(tm.lt(1, x), 1, x))
    cx.ensures("codependence is the power of the correlation", pair(n, lambda i, j: tm.eq(c.get(i, j), p(i, j))))
    cx.ensures("distance is the scaled root of one minus the codependence", pair(n, lambda i, j: tm.and_(tm.eq(d.get(i, j) * d.get(i, j), clip((1 - p(i, j)) / (1 - lowest))), tm.le(0, d.get(i, j)))))


@contract("V23", "distance of a correlation", [D + "_distance._corr_to_distance"])
def conversion(cx):
    n = cx.dim("n_assets", 1, bnd=(2,))
    C = cx.array("corr", (n, n), lo=-1, hi=1, run=(-1, 1))
    absolute, power = cx.bool("absolute"), cx.choice("power", [1, 2, 3])
    c, d = (cx.arr(v) for v in cx.seq(cx.call(mod._corr_to_distance, C, absolute=absolute, power=power)))
    _spec(cx, n, C.get, c, d, absolute, power)
    cx.ensures("distances lie between zero and one", pair(n, lambda i, j: tm.and_(tm.le(0, d.get(i, j)), tm.le(d.get(i, j), 1))))
    cx.unmodified(C)


@contract("V23", "Pearson distance", [D + "PearsonDistance.fit"])
def pearson(cx):
    n, T = cx.dim("n_assets", 2, bnd=(2,), run=(2, 5)), cx.dim("n_observations", 3, bnd=(3,), run=(3, 9))
    X = cx.array("returns", (T, n), distinct=True)
    mean = lambda i: tm.bigsum(T, lambda t: X.get(t, i)) / const(T)
    cov = lambda i, j: tm.bigsum(T, lambda t: (X.get(t, i) - mean(i)) * (X.get(t, j) - mean(j))) / (const(T) - 1)
    cx.requires(tm.forall(n, lambda i: tm.lt(0, cov(i, i))))
    absolute, power = cx.bool("absolute"), cx.choice("power", [1, 2])
    m = cx.new(sd.PearsonDistance, absolute=absolute, power=power)
    cx.method(m, "fit", X)
    c, d = _both(cx, m)
    corr = lambda i, j: cov(i, j) / tm.sqrt(cov(i, i)) / tm.sqrt(cov(j, j))
    _spec(cx, n, corr, c, d, absolute, power)
    cx.unmodified(X)


@contract("V23", "covariance distance", [D + "CovarianceDistance.fit"])
def covariance(cx):
    n, T = cx.dim("n_assets", 1, bnd=(2,)), cx.dim("n_observations", 2, bnd=(2,))
    X = cx.array("returns", (T, n))
    S = cx.array("covariance", (n, n), run=(0.1, 1))
    cx.requires(tm.forall(n, lambda i: tm.lt(0, S.get(i, i))))
    absolute, power = cx.bool("absolute"), cx.choice("power", [1, 2])
    m = cx.new(sd.CovarianceDistance, covariance_estimator=given(cx, S), absolute=absolute, power=power)
    cx.method(m, "fit", X)
    c, d = _both(cx, m)
    _spec(cx, n, lambda i, j: S.get(i, j) / tm.sqrt(S.get(i, i)) / tm.sqrt(S.get(j, j)), c, d, absolute, power)


def _dcorr(x, y):
    n = len(x)
    cen = lambda v: (lambda a: np.array([[a[i, j] - a[i].mean() - a[:, j].mean() + a.mean() for j in range(n)] for i in range(n)]))(np.abs(v[:, None] - v[None, :]))
    a, b = cen(x), cen(y)
    return np.sqrt(max((a * b).sum(), 0) / np.sqrt((a * a).sum() * (b * b).sum()))


def _tau(x, y):
    n = len(x)
    s = sum(np.sign(x[i] - x[j]) * np.sign(y[i] - y[j]) for i in range(n) for j in range(i))
    tx = sum(x[i] != x[j] for i in range(n) for j in range(i))
    ty = sum(y[i] != y[j] for i in range(n) for j in range(i))
    return s / np.sqrt(tx * ty)


def _rank(x):
    return np.array([np.mean([k + 1 for k, v in enumerate(sorted(x)) if v == u]) for u in x])


@contract("V23", "rank and distance correlations, mutual information", [D + k + ".fit" for k in ("KendallDistance", "SpearmanDistance", "DistanceCorrelation", "MutualInformation")], sym=False, bnd=False, runs=60)
def others(cx):
    n, T = cx.dim("n_assets", 2, run=(2, 4)), cx.dim("n_observations", 6, run=(6, 25))
    X = cx.array("returns", (T, n)).real
    if np.any(X.std(axis=0) < 1e-9) or any(len(set(X[:, i])) < 4 for i in range(n)):
        raise Discard()
    which = cx.choice("distance", ["kendall", "spearman", "distance correlation", "mutual information"])
    keep = X.copy()
    if which in ("kendall", "spearman"):
        absolute, power = cx.bool("absolute"), cx.choice("power", [1, 2])
        m = (sd.KendallDistance if which == "kendall" else sd.SpearmanDistance)(absolute=absolute, power=power).fit(X)
        f = _tau if which == "kendall" else lambda x, y: np.corrcoef(_rank(x), _rank(y))[0, 1]
        C = np.array([[f(X[:, i], X[:, j]) if i != j else 1.0 for j in range(n)] for i in range(n)])
        C = (np.abs(C) if absolute else C) ** power
        S = np.sqrt(np.clip((1 - C) / (1 if absolute or power == 2 else 2), 0, 1))
    elif which == "distance correlation":
        m = sd.DistanceCorrelation().fit(X)
        C = np.array([[_dcorr(X[:, i], X[:, j]) if i != j else 1.0 for j in range(n)] for i in range(n)])
        S = np.sqrt(np.clip(1 - C, 0, 1))
    else:
        normal, bins = cx.bool("normalize"), cx.choice("n_bins", [None, 3, 5])
        m = sd.MutualInformation(n_bins=bins, normalize=normal, n_bins_method=NBinsMethod.FREEDMAN).fit(X)
        C, S = _information(X, bins, normal)
    cx.ensures("codependence follows its definition", bool(np.allclose(m.codependence_, C, atol=1e-6)))
    cx.ensures("distance follows its definition", bool(np.allclose(m.distance_, S, atol=2e-4)))
    cx.ensures("symmetric with a zero diagonal", bool(np.allclose(m.distance_, m.distance_.T) and np.allclose(np.diag(m.distance_), 0, atol=1e-4)))
    cx.ensures("the returns are not modified", bool(np.array_equal(X, keep)))


def _information(X, bins, normal):
    from skfolio.utils.stats import n_bins_freedman

    n = X.shape[1]
    h = lambda p: -sum(v * np.log(v) for v in p.ravel() if v > 0)
    C, S = np.zeros((n, n)), np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            b = bins or max(n_bins_freedman(X[:, i]), n_bins_freedman(X[:, j]))
            p = np.histogram2d(X[:, i], X[:, j], bins=b)[0] / len(X)
            hx, hy, hxy = h(p.sum(axis=1)), h(p.sum(axis=0)), h(p)
            mi = hx + hy - hxy
            C[i, j] = mi / min(hx, hy) if normal else mi
            S[i, j] = max(0, (hxy - mi) / hxy if normal else hxy - mi)
    return C, S
