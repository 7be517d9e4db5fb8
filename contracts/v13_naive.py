"""V13: naive allocations follow their rule."""

import numpy as np

from contracts._convex import prior
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from skfolio.optimization import EqualWeighted, InverseVolatility, Random
from skfolio.utils import stats

N = "skfolio.optimization."


@contract("V13", "equal weights", [N + "EqualWeighted.fit"])
def equal(cx):
    n, T = cx.dim("n_assets", 1), cx.dim("n_observations", 2, run=(2, 6))
    X = cx.array("returns", (T, n))
    m = cx.new(EqualWeighted)
    cx.method(m, "fit", X)
    w = cx.arr(cx.get(m, "weights_"))
    cx.ensures("one weight per asset", tm.eq(w.shape[0], n))
    cx.ensures("every asset has the same weight", tm.forall(n, lambda i: tm.eq(w.get(i) * n, 1)))
    cx.ensures("weights sum to one", tm.eq(tm.bigsum(n, w.get), 1))
    cx.unmodified(X)


@contract("V13", "inverse volatility", [N + "InverseVolatility.fit"])
def inverse(cx):
    n, T = cx.dim("n_assets", 1, bnd=(2,)), cx.dim("n_observations", 2, run=(2, 6), bnd=(2,))
    pr, X, mu, S = prior(cx, T, n)
    if cx.run:
        from pyvc.values import from_numpy

        S = from_numpy(pr.model.covariance)
    cx.requires(tm.forall(n, lambda i: tm.lt(0, S.get(i, i))))
    m = cx.new(InverseVolatility, prior_estimator=pr)
    cx.method(m, "fit", X)
    w = cx.arr(cx.get(m, "weights_"))
    cx.ensures("one weight per asset", tm.eq(w.shape[0], n))
    vol = cx.define("volatility", n, lambda i: tm.sqrt(S.get(i, i)))
    total = tm.bigsum(n, lambda i: 1 / vol(i))
    cx.lemma("volatilities are positive", tm.forall(n, lambda i: tm.lt(0, vol(i))))
    cx.lemma("their inverses have a positive sum", tm.lt(0, total))
    cx.ensures("weights are proportional to the inverse volatility", tm.forall(n, lambda i: tm.eq(w.get(i) * total * vol(i), 1)))
    cx.ensures("weights sum to one", tm.eq(tm.bigsum(n, w.get), 1))
    cx.ensures("weights are positive", tm.forall(n, lambda i: tm.lt(0, w.get(i))))


@contract("V13", "random weights", [N + "Random.fit", "skfolio.utils.stats.rand_weights_dirichlet", "skfolio.utils.stats.rand_weights"], sym=False, bnd=False)
def random(cx):
    n = cx.dim("n_assets", 1, run=(1, 9))
    which = cx.choice("function", ["Random", "dirichlet", "uniform"])
    zeros = 0
    if which == "Random":
        w = Random().fit(np.ones((3, n)) * np.arange(1, 4)[:, None]).weights_
    elif which == "dirichlet":
        w = stats.rand_weights_dirichlet(n)
    else:
        zeros = cx.int("zeros", 0, n - 1, run=(0, 8))
        w = stats.rand_weights(n, zeros)
    cx.ensures("one weight per asset", len(w) == n)
    cx.ensures("weights are long only and sum to one", bool(np.all(w >= 0) and abs(w.sum() - 1) < 1e-9))
    cx.ensures("exactly the number of zeros asked for", int((w == 0).sum()) == zeros)
