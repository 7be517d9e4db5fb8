"""Shared parts of the contracts of the convex optimisations."""

import numpy as np

from pyvc import terms as tm
from pyvc.terms import const
from pyvc.values import SObj
from skfolio.prior import BasePrior, PriorModel


class GivenPrior(BasePrior):
    """prior estimator with a given result"""

    def __init__(self, model=None):
        self.model = model

    def fit(self, X, y=None, **fit_params):
        self.prior_model_ = self.model
        return self


def prior(cx, T, n, cov=True):
    """an arbitrary prior: returns, expected returns and a covariance with its factor"""
    X = cx.array("returns", (T, n), run=(-0.05, 0.05))
    mu = cx.array("mu", (n,), run=(-0.01, 0.03))
    Z = cx.array("factor_of_covariance", (n, n), run=(-0.02, 0.02))
    if cx.run:
        S = Z.real @ Z.real.T + 1e-4 * np.eye(n)
        m = PriorModel(mu=mu.real.copy(), covariance=S, returns=X.real.copy(), cholesky=None)
        return GivenPrior(model=m), X, mu, None
    from pyvc.values import SArr

    S = SArr((n, n), lambda i, j: tm.bigsum(n, lambda k: Z.get(i, k) * Z.get(j, k)))
    m = SObj(PriorModel, dict(mu=mu, covariance=S, returns=X, cholesky=Z))
    return SObj(GivenPrior, dict(model=m)), X, mu, S
