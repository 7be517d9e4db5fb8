"""V24: statistical helpers follow their definition."""

import numpy as np

from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio.utils import stats

U = "skfolio.utils.stats."


@contract("V24", "correlation and standard deviations of a covariance", [U + "cov_to_corr", U + "corr_to_cov"])
def corr(cx):
    n = cx.dim("n", 1, bnd=(1, 2))
    S = cx.array("cov", (n, n), run=(0.1, 2))
    cx.requires(tm.forall(n, lambda i: tm.lt(0, S.get(i, i))))
    r = cx.call(stats.cov_to_corr, S)
    c, s = (cx.arr(v) for v in cx.seq(r))
    cx.ensures("squared deviations are the variances", tm.forall(n, lambda i: tm.and_(tm.eq(s.get(i) * s.get(i), S.get(i, i)), tm.lt(0, s.get(i)))))
    cx.ensures("unit diagonal", tm.forall(n, lambda i: tm.eq(c.get(i, i), 1)))
    cx.ensures("correlations scale the covariance", tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(c.get(i, j) * s.get(i) * s.get(j), S.get(i, j)))))
    b = cx.arr(cx.call(stats.corr_to_cov, c, s))
    cx.ensures("going back gives the covariance", tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(b.get(i, j), S.get(i, j)))))
    cx.unmodified(S)


@contract("V24", "covariance of a correlation", [U + "corr_to_cov"])
def cov(cx):
    n = cx.dim("n", 1, bnd=(1, 2))
    c, s = cx.array("corr", (n, n), run=(-1, 1)), cx.array("std", (n,), run=(0.1, 2))
    b = cx.arr(cx.call(stats.corr_to_cov, c, s))
    cx.ensures("covariances are correlations times deviations", tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(b.get(i, j), c.get(i, j) * s.get(i) * s.get(j)))))
    cx.unmodified(c, s)


@contract("V24", "closest weights within bounds", [U + "minimize_relative_weight_deviation"], tol=1e-5)
def deviation(cx):
    n = cx.dim("n", 1, bnd=(2,), run=(2, 5))
    w = cx.array("weights", (n,), lo=0, strict=True, run=(0.05, 1))
    lo, hi = cx.array("min_weights", (n,), run=(0, 0.3)), cx.array("max_weights", (n,), run=(0.2, 0.9))
    if cx.run:
        w.real /= w.real.sum()
        from pyvc.values import from_numpy

        v = from_numpy(w.real)
        v.origin, v.real = w.origin, w.real
        w = v
    else:
        cx.requires(tm.eq(tm.bigsum(n, w.get), 1))
    k, r = cx.attempt(stats.minimize_relative_weight_deviation, w, lo, hi)
    if k == "raise":
        feasible = tm.and_(tm.forall(n, lambda i: tm.le(lo.get(i), hi.get(i))), tm.le(tm.bigsum(n, lo.get), 1), tm.le(1, tm.bigsum(n, hi.get)))
        if cx.run:
            cx.ensures("only infeasible bounds are refused", tm.not_(feasible))
        return
    r = cx.arr(r)
    cx.ensures("within the bounds", tm.forall(n, lambda i: tm.and_(tm.le(lo.get(i), r.get(i)), tm.le(r.get(i), hi.get(i)))))
    cx.ensures("weights sum to one", tm.eq(tm.bigsum(n, r.get), 1))
    inside = tm.forall(n, lambda i: tm.and_(tm.le(lo.get(i), w.get(i)), tm.le(w.get(i), hi.get(i))))
    cx.ensures("weights already within the bounds stay", tm.implies(inside, tm.forall(n, lambda i: tm.eq(r.get(i), w.get(i)))))
    cx.unmodified(w, lo, hi)


@contract("V24", "closest weights are closest", [U + "minimize_relative_weight_deviation"], sym=False, bnd=False, runs=25)
def closest(cx):
    n = cx.dim("n", 2, run=(2, 5))
    w = cx.array("weights", (n,), lo=0, strict=True, run=(0.05, 1)).real
    w = w / w.sum()
    lo, hi = cx.array("min_weights", (n,), run=(0, 0.25)).real, cx.array("max_weights", (n,), run=(0.2, 0.9)).real
    if np.any(lo > hi) or lo.sum() > 0.98 or hi.sum() < 1.02:
        raise Discard()
    r = stats.minimize_relative_weight_deviation(w, lo, hi)
    loss = lambda v: np.linalg.norm(v / w - 1)
    others = []
    for e in (0.05, 0.005):
        for i in range(n):
            for j in range(n):
                v = r.copy()
                v[i] += e
                v[j] -= e
                if np.all(v >= lo) and np.all(v <= hi):
                    others.append(v)
    cx.ensures("no other weights within the bounds are closer", not [v for v in others if loss(v) < loss(r) - 1e-5])


@contract("V24", "nearest covariance", [U + "cov_nearest"], sym=False, bnd=False, runs=40)
def nearest(cx):
    n = cx.dim("n", 2, run=(2, 5))
    A = cx.array("a", (n, n), run=(-1, 1)).real
    kind = cx.choice("kind", ["positive definite", "indefinite", "singular"])
    S = A @ A.T + 0.1 * np.eye(n)
    if kind == "indefinite":
        c = np.clip((A + A.T) / 2, -0.99, 0.99)
        np.fill_diagonal(c, 1)
        s = np.abs(A[0]) + 0.1
        S = c * s * s[:, None]
    elif kind == "singular":
        S = A[:, :1] @ A[:, :1].T + 1e-3 * np.diag(np.abs(A[0]) > 0.5)
        if np.any(np.diag(S) < 1e-4):
            raise Discard()
    higham = cx.bool("higham")
    before = S.copy()
    try:
        R = stats.cov_nearest(S, higham=higham)
    except ValueError:
        if higham:
            raise Discard() from None
        raise
    cx.ensures("the argument is not modified", bool(np.array_equal(S, before)))
    cx.ensures("the result is symmetric", bool(np.allclose(R, R.T)))
    cx.ensures("variances are kept", bool(np.allclose(np.diag(R), np.diag(S))))
    cx.ensures("the result is positive semi-definite", bool(np.linalg.eigvalsh(R).min() > -1e-9))
    if np.linalg.eigvalsh(S).min() > 1e-6:
        cx.ensures("a positive definite matrix is kept", bool(np.array_equal(R, S)))
    if np.linalg.eigvalsh(S).min() > -1e-10:
        cx.ensures("a positive semi-definite matrix hardly moves", bool(np.allclose(R, S, atol=1e-6)))


@contract("V24", "commutation matrix", [U + "commutation_matrix"], sym=False, bnd=False)
def commutation(cx):
    m, n = cx.dim("m", 1, run=(1, 5)), cx.dim("n", 1, run=(1, 5))
    A = cx.array("a", (m, n), run=(-1, 1)).real
    k = stats.commutation_matrix(A)
    cx.ensures("it maps the column stacking of a matrix to that of its transpose", bool(np.allclose(k @ A.ravel(order="F"), A.T.ravel(order="F"))))


@contract("V24", "number of bins and clusters", [U + "n_bins_freedman", U + "n_bins_knuth", U + "compute_optimal_n_clusters"], sym=False, bnd=False)
def bins(cx):
    import scipy.cluster.hierarchy as sch
    import scipy.spatial.distance as scd

    n = cx.dim("n", 4, run=(4, 30))
    x = cx.array("x", (n,), run=(-1, 1), distinct=True).real
    p25, p75 = np.percentile(x, [25, 75])
    d = 2 * (p75 - p25) / n ** (1 / 3)
    cx.ensures("Freedman-Diaconis bins", stats.n_bins_freedman(x) == (5 if d == 0 else max(1, int(np.ceil((x.max() - x.min()) / d)))))
    cx.ensures("a constant sample has five bins", stats.n_bins_freedman(np.ones(n)) == 5)
    cx.ensures("Knuth bins are positive", stats.n_bins_knuth(x) >= 1)
    P = cx.array("points", (n, 2), run=(-1, 1), distinct=True).real
    D = scd.pdist(P)
    k = stats.compute_optimal_n_clusters(scd.squareform(D), sch.linkage(D))
    cx.ensures("the number of clusters lies between two and the number of points", 2 <= k <= max(2, min(n, max(8, round(np.sqrt(n))))))
    cx.ensures("it is the largest gap of the dispersion", k == gap(scd.squareform(D), sch.linkage(D)))


def gap(D, Z):
    import scipy.cluster.hierarchy as sch

    n = len(D)
    disp = []
    for k in range(1, min(n, max(8, round(np.sqrt(n)))) + 1):
        lab = sch.cut_tree(Z, n_clusters=k).ravel()
        tot = 0.0
        for c in set(lab):
            idx = [i for i in range(n) if lab[i] == c]
            pairs = [D[i, j] for a, i in enumerate(idx) for j in idx[a + 1 :]]
            tot += np.mean(pairs) if pairs else 0.0
        disp.append(tot)
    gaps = [disp[k + 2] + disp[k] - 2 * disp[k + 1] for k in range(len(disp) - 2)]
    return int(np.argmax(gaps)) + 2
