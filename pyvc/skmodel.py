"""Assumed contracts of scikit-learn helpers."""

from __future__ import annotations

import sklearn.utils as sku
import sklearn.utils.validation as skv

from .npmodel import MODELS
from .values import SList

MODELS[sku.indexable] = lambda it, *a: SList(list(a))


# -- estimators ---------------------------------------------------------------
import inspect

import sklearn as sk
import sklearn.base as skb
import sklearn.utils.metadata_routing as skm

from . import npmodel
from .values import SDict, SObj


class Routed:
    """routed parameters: none are given"""

    def pyvc_getitem(self, it, name):
        return SDict({k: SDict() for k in ("fit", "predict", "transform", "split", "score", "partial_fit")})

    def pyvc_getattr(self, it, name):
        if name in ("fit", "predict", "transform", "split", "score", "partial_fit"):
            return SDict()
        return Routed()


MODELS[skm.process_routing] = lambda it, *a, **k: Routed()


def m_validate_data(it, est, X="no_validation", y="no_validation", **k):
    """the data, as arrays; the number of features is recorded"""
    Xa = X
    if k.get("skip_check_array") is not True and not isinstance(X, str):
        Xa = X
    cols = getattr(X, "columns", None)
    if cols is not None:
        est.setattr("feature_names_in_", cols)
    if not isinstance(X, str) and X is not None:
        a = npmodel.to_arr(it, X)
        est.setattr("n_features_in_", a.shape[1] if a.ndim == 2 else 1)
        if k.get("skip_check_array") is not True:
            Xa = a
    if isinstance(y, str) or y is None:
        return Xa
    return SList([Xa, npmodel.to_arr(it, y)], is_tuple=True)


MODELS[skv.validate_data] = m_validate_data


def m_clone(it, o, safe=True):
    """new estimator of the same class built from the same parameters"""
    if isinstance(o, SList):
        return SList([m_clone(it, x) for x in o.items], is_tuple=o.is_tuple)
    if not isinstance(o, SObj):
        if isinstance(o, skb.BaseEstimator):
            return sk.clone(o)
        return o
    names = [p for p in inspect.signature(o.cls.__init__).parameters if p != "self"]
    kw = {}
    for n in names:
        v = it.getattr(o, n)
        kw[n] = m_clone(it, v) if isinstance(v, SObj) and issubclass(v.cls, skb.BaseEstimator) else v
    return it.call(o.cls, [], kw)


MODELS[sk.clone] = m_clone
MODELS[skb.clone] = m_clone


def m_get_params(it, o, deep=True):
    out = {}
    for k in o.cls._get_param_names():
        v = out[k] = it.getattr(o, k)
        if deep and isinstance(v, SObj) and hasattr(v.cls, "get_params"):
            out.update({f"{k}__{a}": b for a, b in m_get_params(it, v).d.items()})
    return SDict(out)


MODELS[skb.BaseEstimator.get_params] = m_get_params
MODELS[skv.check_is_fitted] = lambda it, *a, **k: None


# -- model selection ------------------------------------------------------------
import scipy.sparse
import sklearn.model_selection as sks
import sklearn.utils.parallel as skp

from . import terms as tm
from .terms import const
from .values import SArr, Unsupported


class BunchModel:
    """attributes given by name"""


def m_bunch(it, **k):
    return SObj(BunchModel, dict(k))


def m_delayed(it, f, **k):
    """call to make later: (function, arguments)"""

    def later(it, *a, **kw):
        return SList([f, SList(list(a)), SDict(dict(kw))], is_tuple=True)

    later._pyvc_model = True
    return later


def m_parallel(it, *a, **k):
    """calls in parallel: the results in the order of the calls"""

    def run(it, calls):
        out = []
        for c in it.iter_list(calls):
            f, args, kw = c.items
            out.append(it.call(f, list(args.items), dict(kw.d)))
        return SList(out)

    run._pyvc_model = True
    return run


def m_check_cv(it, cv=5, y=None, **k):
    if isinstance(cv, SObj):
        return cv
    if cv is None or isinstance(cv, int):
        raise Unsupported("default cross-validation")
    return cv


MODELS[sku.Bunch] = m_bunch
MODELS[skp.delayed] = m_delayed
MODELS[skp.Parallel] = m_parallel
MODELS[sks.check_cv] = m_check_cv
MODELS[scipy.sparse.issparse] = lambda it, x: False


def m_sparse(it, x, shape=None, **k):
    """matrix of which the entries are listed, kept dense"""
    data, pos = it.iter_list(x)
    data, (rows, cols) = it.iter_list(data), [it.iter_list(p) for p in it.iter_list(pos)]
    at = [[tm.numval(const(v)) for v in p] for p in (rows, cols)]
    if None in at[0] + at[1] or shape is None:
        raise Unsupported("sparse matrix at symbolic positions")
    e = {}
    for d, i, j in zip(data, *at):
        e[int(i), int(j)] = const(d) + e.get((int(i), int(j)), const(0))

    def get(i, j):
        v = [tm.numval(const(z)) for z in (i, j)]
        if None in v:
            raise Unsupported("symbolic index into a sparse matrix")
        return e.get((int(v[0]), int(v[1])), const(0))

    return SArr(tuple(it.iter_list(shape)), get)


MODELS[scipy.sparse.csr_matrix] = m_sparse
