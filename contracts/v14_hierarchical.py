"""V14: hierarchical allocations spend the budget within the bounds."""

import itertools
import warnings

import numpy as np
import scipy.cluster.hierarchy as sch
import scipy.spatial.distance as scd

import skfolio.optimization.cluster.hierarchical._hrp as hrp
from contracts._convex import GivenPrior
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.npmodel import MODELS
from pyvc.terms import const
from pyvc.values import SArr, SList, SObj, from_numpy
from skfolio import ExtraRiskMeasure, Portfolio, RiskMeasure
from skfolio.cluster import HierarchicalClustering, LinkageMethod
from skfolio.distance import BaseDistance, KendallDistance, PearsonDistance
from skfolio.optimization import HierarchicalEqualRiskContribution, HierarchicalRiskParity
from skfolio.optimization.cluster.hierarchical._base import BaseHierarchicalOptimization
from skfolio.prior import EmpiricalPrior, PriorModel
from skfolio.utils.stats import minimize_relative_weight_deviation

SPLIT = getattr(hrp, "_apply_weight_constraints_to_split_factor", None)
HRP = ["skfolio.optimization.HierarchicalRiskParity.fit"]
HERC = ["skfolio.optimization.HierarchicalEqualRiskContribution.fit"]


def total(a, ids, m):
    return tm.bigsum(m, lambda k: a.get(ids.get(k)))


if SPLIT is not None:

    @contract("V14", "split of a branch within the bounds of its halves", ["skfolio.optimization.cluster.hierarchical._hrp." + SPLIT.__name__])
    def split(cx):
        n = cx.dim("n_assets", 2, bnd=(3,), run=(2, 6))
        l, r = cx.dim("n_left", 1, bnd=(1, 2), run=(1, 3)), cx.dim("n_right", 1, bnd=(1,), run=(1, 3))
        W = cx.real("branch_weight", 0, run=(0.2, 1))
        a = cx.real("alpha", 0, 1, run=(0, 1))
        lo, hi = cx.array("min_weights", (n,), lo=0, run=(0, 0.15)), cx.array("max_weights", (n,), lo=0, run=(0.15, 1))
        w = cx.array("weights", (n,), lo=0, run=(0.5, 0.5))
        L, R = cx.array("left", (l,), "I", lo=0, run=(0, 1)), cx.array("right", (r,), "I", lo=0, run=(0, 1))
        if cx.run:
            W = const(float(tm.numval(const(W))))
            w.real[:] = float(tm.numval(W))
            ids = np.arange(int(n))
            l, r = min(int(l), int(n) - 1), min(int(r), int(n) - 1)
            k = min(l, int(n) - r)
            L.real, R.real = ids[:k].copy(), ids[k : k + r].copy()
            L2, R2, w2 = from_numpy(L.real), from_numpy(R.real), from_numpy(w.real)
            for x, y in ((L2, L), (R2, R), (w2, w)):
                x.real, x.origin = y.real, y.origin
            L, R, w, l, r = L2, R2, w2, len(L.real), len(R.real)
        cx.requires(tm.forall(l, lambda i: tm.lt(L.get(i), n)))
        cx.requires(tm.forall(r, lambda i: tm.lt(R.get(i), n)))
        cx.requires(tm.eq(w.get(L.get(0)), W))
        cx.requires(tm.eq(w.get(R.get(0)), W))
        cx.requires(tm.forall(n, lambda i: tm.le(lo.get(i), hi.get(i))))
        ll, lh, rl, rh = total(lo, L, l), total(hi, L, l), total(lo, R, r), total(hi, R, r)
        cx.requires(tm.le(ll + rl, W))
        cx.requires(tm.le(W, lh + rh))
        cx.requires(tm.le(0, ll))
        cx.requires(tm.le(0, rl))
        cx.requires(tm.le(ll, lh))
        cx.requires(tm.le(rl, rh))
        x = const(cx.call(SPLIT, alpha=a, max_weights=hi, min_weights=lo, weights=w, left_cluster=L, right_cluster=R))
        W = const(W)
        cx.ensures("a share between nothing and everything", tm.and_(tm.le(0, x), tm.le(x, 1)))
        for side, s, mn, mx in (("left", x, ll, lh), ("right", 1 - x, rl, rh)):
            cx.ensures(f"the {side} half stays within its bounds", tm.and_(tm.le(mn, s * W), tm.le(s * W, mx)))
        # unconstrained shares are kept
        free = tm.and_(tm.le(ll, const(a) * W), tm.le(const(a) * W, lh), tm.le(rl, (1 - const(a)) * W), tm.le((1 - const(a)) * W, rh))
        cx.ensures("a share within the bounds is kept", tm.implies(free, tm.eq(x, const(a))))
        cx.unmodified(lo, hi)


class GivenDistance(BaseDistance):
    def __init__(self, value=None):
        self.value = value

    def fit(self, X, y=None):
        self.distance_ = self.value
        return self


class GivenClustering(HierarchicalClustering):
    """clustering with a given result"""

    def __init__(self, linkage=None, labels=None, n_clusters=None):
        self.linkage, self.labels, self.n_clusters = linkage, labels, n_clusters

    def fit(self, X, y=None):
        self.linkage_matrix_, self.condensed_distance_ = self.linkage, None
        self.labels_, self.n_clusters_ = self.labels, self.n_clusters
        return self


def _positive(it, *a, **k):
    """assumed contract of the risk of a branch: some positive number"""
    v = it.m.fresh("risk", "R")
    it.m.assume(tm.lt(0, v))
    return v


def _bounds(cx, n):
    lo, hi = cx.array("min_weights", (n,), lo=0, hi=1, run=(0, 0.2)), cx.array("max_weights", (n,), lo=0, hi=1, run=(0.2, 1))
    cx.requires(tm.forall(n, lambda i: tm.le(lo.get(i), hi.get(i))))
    cx.requires(tm.le(tm.bigsum(n, lo.get), 1))
    cx.requires(tm.le(1, tm.bigsum(n, hi.get)))
    return lo, hi


def _sum(a, ids):
    return sum((a.get(i) for i in ids), const(0))


def _hrp(n):
    @contract("V14", f"risk parity of {n} assets", HRP, sym=True, bnd=False, runs=6, bound=f"{n} assets, every order of the leaves and any risks", tol=1e-5)
    def c(cx):
        lo, hi = _bounds(cx, n)
        perms = [p for p in itertools.permutations(range(n)) if n < 4 or p in ((0, 1, 2, 3), (2, 0, 3, 1), (0, 1, 2, 3, 4), (3, 1, 4, 0, 2))]
        order = np.array(cx.choice("order", perms))
        if cx.run:
            X = cx.array("returns", (8, n), distinct=True).real
            m = HierarchicalRiskParity(min_weights=lo.real.copy(), max_weights=hi.real.copy())
            w = cx.arr(from_numpy(m.fit(X).weights_))
        else:
            X = cx.array("returns", (3, n))
            prior = SObj(GivenPrior, dict(model=SObj(PriorModel, dict(mu=cx.array("mu", (n,)), covariance=cx.array("covariance", (n, n)), returns=X, cholesky=None))))
            cx.callee(BaseHierarchicalOptimization._risk, _positive)
            cx.it.models[sch.optimal_leaf_ordering] = lambda it, *a, **k: None
            cx.it.models[sch.leaves_list] = lambda it, *a: from_numpy(order)
            if SPLIT is not None:

                def contract_(it, alpha, max_weights, min_weights, weights, left_cluster, right_cluster):
                    """precondition checked, postcondition assumed (contract above)"""
                    L, R = ([int(tm.numval(s.get(k))) for k in range(int(s.shape[0]))] for s in (left_cluster, right_cluster))
                    W = weights.get(L[0])
                    al = const(alpha)
                    ll, lh, rl, rh = _sum(min_weights, L), _sum(max_weights, L), _sum(min_weights, R), _sum(max_weights, R)
                    cx.ensures("branch within the bounds before its split", tm.and_(tm.eq(W, weights.get(R[0])), tm.le(ll + rl, W), tm.le(W, lh + rh), tm.le(0, al), tm.le(al, 1)))
                    x = it.m.fresh("share", "R")
                    it.m.assume(tm.le(0, x))
                    it.m.assume(tm.le(x, 1))
                    for s, mn, mx in ((x, ll, lh), (1 - x, rl, rh)):
                        it.m.assume(tm.le(mn, s * W))
                        it.m.assume(tm.le(s * W, mx))
                    return x

                cx.callee(SPLIT, contract_)
            m = cx.new(HierarchicalRiskParity, prior_estimator=prior, distance_estimator=SObj(GivenDistance, dict(value=cx.array("distance", (n, n)))), hierarchical_clustering_estimator=SObj(GivenClustering, dict(linkage=None, labels=None, n_clusters=None)), min_weights=lo, max_weights=hi)
            cx.method(m, "fit", X)
            w = cx.arr(cx.get(m, "weights_"))
        cx.ensures("weights add up to one", tm.eq(tm.bigsum(n, w.get), 1))
        cx.ensures("every weight is within its bounds", tm.forall(n, lambda i: tm.and_(tm.le(lo.get(i), w.get(i)), tm.le(w.get(i), hi.get(i)))))


for _n in (2, 3, 4, 5):
    _hrp(_n)


# ------------------------------------------------ documented algorithm, bounded
MEASURES = [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.SEMI_VARIANCE, RiskMeasure.CVAR, RiskMeasure.MEAN_ABSOLUTE_DEVIATION, RiskMeasure.MAX_DRAWDOWN, RiskMeasure.WORST_REALIZATION, RiskMeasure.GINI_MEAN_DIFFERENCE, ExtraRiskMeasure.VALUE_AT_RISK, RiskMeasure.CDAR]


def _case(cx):
    n, T = int(cx.dim("n_assets", 2, run=(2, 7))), int(cx.dim("n_observations", 20, run=(20, 40)))
    seed = int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6)))))
    rng = np.random.default_rng(seed)
    X = rng.normal(0.0005, 0.01, (T, n)) @ rng.uniform(-1, 1, (n, n))
    rm = cx.choice("risk_measure", MEASURES)
    dist = cx.choice("distance", [PearsonDistance(), KendallDistance(absolute=True)])
    link = cx.choice("linkage", [LinkageMethod.WARD, LinkageMethod.SINGLE])
    costs, fees, prev = rng.uniform(0, 1e-3, n), rng.uniform(0, 1e-3, n), rng.uniform(0, 1, n)
    kw = dict(transaction_costs=costs, management_fees=fees, previous_weights=prev) if cx.bool("costs") else {}
    lim = {}
    if cx.bool("bounds"):
        lo, hi = rng.uniform(0, 0.9 / n, n), rng.uniform(0.5 / n, 1, n)
        lo = np.minimum(lo, hi)
        hi[rng.integers(n)] = 1
        for i in range(n - 2):
            if rng.uniform() < 0.3:
                lo[i] = hi[i] = 0
        if hi.sum() < 1.01:
            raise Discard()
        lim = dict(min_weights=lo, max_weights=hi)
    S = np.cov(X.T)

    def risk(w):
        if rm in (RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION):
            v = w @ S @ w
            return np.sqrt(v) if rm == RiskMeasure.STANDARD_DEVIATION else v
        return getattr(Portfolio(X=X, weights=w, **kw), rm.value)

    own = np.array([risk(e) for e in np.eye(n)])

    def branch(ids):
        w = np.zeros(n)
        w[ids] = 1 / own[ids]
        return risk(w / w.sum())

    d = type(dist)(**dist.get_params()).fit(X).distance_
    Z = sch.linkage(scd.squareform(d, checks=False), method=link.value)
    if np.any(own <= 0):
        raise Discard()
    return n, X, rm, dist, link, kw, lim, own, branch, d, Z


def _inside(cx, w, lim, n):
    cx.ensures("weights add up to one", bool(abs(w.sum() - 1) < 1e-7))
    lo, hi = lim.get("min_weights", np.zeros(n)), lim.get("max_weights", np.ones(n))
    cx.ensures("every weight is within its bounds", bool(np.all(w >= lo - 1e-7) and np.all(w <= hi + 1e-7)))


@contract("V14", "risk parity follows inverse risks down the ordered tree", HRP, sym=False, bnd=False, runs=60)
def parity(cx):
    n, X, rm, dist, link, kw, lim, own, branch, d, Z = _case(cx)
    w = HierarchicalRiskParity(risk_measure=rm, distance_estimator=dist, hierarchical_clustering_estimator=HierarchicalClustering(linkage_method=link), **kw, **lim).fit(X).weights_
    _inside(cx, w, lim, n)
    if lim:
        return
    leaves = sch.leaves_list(sch.optimal_leaf_ordering(Z, scd.squareform(d, checks=False)))
    want = np.ones(n)

    def rec(ids):
        if len(ids) < 2:
            return
        a, b = ids[: len(ids) // 2], ids[len(ids) // 2 :]
        ra, rb = branch(a), branch(b)
        want[a] *= rb / (ra + rb)
        want[b] *= ra / (ra + rb)
        rec(a)
        rec(b)

    rec(leaves)
    cx.ensures("each branch gets the share of the risk of the other", bool(np.allclose(w, want, atol=1e-8)))


@contract("V14", "equal risk contribution follows inverse risks down the clusters", HERC, sym=False, bnd=False, runs=60)
def contribution(cx):
    n, X, rm, dist, link, kw, lim, own, branch, d, Z = _case(cx)
    k = cx.choice("max_clusters", [2, 3, 10])
    m = HierarchicalEqualRiskContribution(risk_measure=rm, distance_estimator=dist, hierarchical_clustering_estimator=HierarchicalClustering(linkage_method=link, max_clusters=k), **kw, **lim)
    try:
        w = m.fit(X).weights_
    except Exception as e:
        if "olver" in str(e):
            raise Discard() from None
        raise
    _inside(cx, w, lim, n)
    labels = sch.fcluster(Z, t=k, criterion="maxclust") - 1
    cs = [np.flatnonzero(labels == i) for i in range(labels.max() + 1)]
    risks = [branch(c) for c in cs]
    share = np.ones(len(cs))

    def rec(node):
        inside = lambda x: [i for i, c in enumerate(cs) if set(c) <= set(x.pre_order())]
        if len(inside(node)) < 2:
            return
        a, b = inside(node.get_left()), inside(node.get_right())
        ra, rb = sum(risks[i] for i in a), sum(risks[i] for i in b)
        share[a] *= rb / (ra + rb)
        share[b] *= ra / (ra + rb)
        rec(node.get_left())
        rec(node.get_right())

    rec(sch.to_tree(Z))
    want = np.zeros(n)
    for s, c in zip(share, cs):
        want[c] = s * (1 / own[c]) / np.sum(1 / own[c])
    if lim:
        want = minimize_relative_weight_deviation(want, lim["min_weights"], lim["max_weights"])
    cx.ensures("clusters share by inverse risk, assets of a cluster too", bool(np.allclose(w, want, atol=1e-5 if lim else 1e-8)))


@contract("V14", "refused bounds", HRP + HERC, sym=False, bnd=False, runs=24)
def refused(cx):
    n = int(cx.dim("n_assets", 2, run=(2, 5)))
    X = cx.array("returns", (12, n), distinct=True).real
    M = cx.choice("model", [HierarchicalRiskParity, HierarchicalEqualRiskContribution])
    bad = cx.choice("bounds", [dict(min_weights=-0.1), dict(max_weights=1.2), dict(max_weights=0.9 / n), dict(min_weights=1.2 / n), dict(min_weights=[0.4] + [0] * (n - 1), max_weights=[0.3] + [1] * (n - 1))])
    try:
        M(**bad).fit(X)
        ok = False
    except Exception:
        ok = True
    cx.ensures("bounds that no weights satisfy are refused", ok)
