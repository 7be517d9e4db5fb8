"""Shared parts of the contracts of the moment estimators."""

from pyvc.values import SObj
from skfolio.moments import BaseCovariance, BaseMu


class GivenCovariance(BaseCovariance):
    """covariance estimator with a given result"""

    def __init__(self, value=None):
        self.value = value

    def fit(self, X, y=None, **fit_params):
        self.covariance_ = self.value
        return self


class GivenMu(BaseMu):
    """expected returns estimator with a given result"""

    def __init__(self, value=None):
        self.value = value

    def fit(self, X, y=None, **fit_params):
        self.mu_ = self.value
        return self


def given(cx, value, cls=GivenCovariance):
    return cls(value=value.real.copy()) if cx.run else SObj(cls, dict(value=value))
