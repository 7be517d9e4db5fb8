"""Assumed contracts of the few pandas operations the code under contract uses.

Dates are real numbers; an index of dates is a strictly increasing sequence."""

from __future__ import annotations

import pandas as pd

from . import terms as tm
from .npmodel import MODELS
from .terms import const
from .values import SArr, SList, Unsupported


class Dates:
    """sorted sequence of dates (pd.date_range)"""

    pyvc_type = pd.DatetimeIndex

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def pyvc_len(self, it):
        return self.n

    def pyvc_binop(self, it, op, y):
        y = const(y)
        if op == "Add":
            return Dates(self.n, lambda i: self.fn(i) + y)
        if op == "Sub":
            return Dates(self.n, lambda i: self.fn(i) - y)
        raise Unsupported(f"dates {op}")


class TsIndex:
    """strictly increasing DatetimeIndex with n >= 1 entries"""

    pyvc_type = pd.DatetimeIndex

    def __init__(self, it, n, name="ts"):
        self.n, self.name = n, name
        ts = lambda i: tm.app(name, [i], "R")
        self.fn = ts

    def pyvc_len(self, it):
        return self.n

    def pyvc_getitem(self, it, ix):
        v = tm.numval(const(ix))
        if v is not None and v < 0:
            return self.fn(const(self.n) + ix)
        return self.fn(const(ix))

    def pyvc_getattr(self, it, name):
        if name == "get_indexer":
            return Method(self.get_indexer)
        raise Unsupported(f"index.{name}")

    def get_indexer(self, it, target, method=None):
        if not isinstance(target, Dates) or method not in ("ffill", "bfill"):
            raise Unsupported("get_indexer")
        f = it.m.fresh_fn("idx", "I")
        n, d, ts = const(self.n), target.fn, self.fn

        def one(k):
            r = f(k)
            x = d(k)
            if method == "ffill":
                return tm.and_(
                    tm.le(-1, r),
                    tm.lt(r, n),
                    tm.implies(tm.lt(r, 0), tm.lt(x, ts(tm.ZERO))),
                    tm.implies(tm.le(0, r), tm.le(ts(r), x)),
                )
            return tm.and_(
                tm.le(-1, r),
                tm.lt(r, n),
                tm.implies(tm.lt(r, 0), tm.lt(ts(n - 1), x)),
                tm.implies(tm.le(0, r), tm.le(x, ts(r))),
            )

        it.m.assume(tm.forall(target.n, one))
        # sorted targets: positions are sorted, unmatched ones come first (ffill)
        # or last (bfill)
        if method == "ffill":
            mono = lambda k, l: tm.le(f(k), f(l))
        else:
            mono = lambda k, l: tm.implies(tm.le(0, f(l)), tm.and_(tm.le(0, f(k)), tm.le(f(k), f(l))))
        it.m.assume(tm.forall(target.n, lambda l: tm.forall(l, lambda k: mono(k, l))))
        return SArr((target.n,), lambda k: f(k), "I")


class Method:
    _pyvc_model = True

    def __init__(self, f):
        self.f = f

    def __call__(self, it, *a, **k):
        return self.f(it, *a, **k)


def m_date_range(it, start=None, end=None, freq=None, **k):
    n = it.m.fresh("nd", "I")
    f = it.m.fresh_fn("date", "R")
    it.m.assume(tm.le(0, n))
    it.m.assume(tm.forall(n, lambda i: tm.and_(tm.le(start, f(i)), tm.le(f(i), end))))
    return Dates(n, lambda i: f(i))


MODELS[pd.date_range] = m_date_range


class Frame:
    """DataFrame with a symbolic number of rows"""

    pyvc_type = pd.DataFrame

    def __init__(self, values, index=None, columns=None):
        self.values, self.index, self.columns = values, index, columns

    def pyvc_getattr(self, it, name):
        if name == "shape":
            return SList(list(self.values.shape), is_tuple=True)
        if name == "index" and self.index is not None:
            return self.index
        if name == "values":
            return self.values
        if name == "columns" and self.columns is not None:
            return self.columns
        raise Unsupported(f"DataFrame.{name}")

    def pyvc_len(self, it):
        return self.values.shape[0]

    def pyvc_array(self, it):
        return self.values


# -- prices -------------------------------------------------------------------
class Prices:
    """DataFrame without missing values; `first` rows of it hold no value yet"""

    pyvc_type = pd.DataFrame

    def __init__(self, n, k, fn, pad=0):
        # rows, columns, value at (row, column), number of leading missing rows
        self.n, self.k, self.fn, self.pad = n, k, fn, pad

    def pyvc_getattr(self, it, name):
        if name == "shape":
            return SList([self.n, self.k], is_tuple=True)
        if name == "iloc":
            return Iloc(self)
        if name in ("copy", "isna", "isnull", "ffill", "dropna", "pct_change", "shift"):
            return Method(getattr(self, "m_" + name))
        raise Unsupported(f"DataFrame.{name}")

    def pyvc_len(self, it):
        return self.n

    def _complete(self):
        if self.pad:
            raise Unsupported("missing rows")

    def m_copy(self, it, deep=True):
        return Prices(self.n, self.k, self.fn, self.pad)

    def m_isna(self, it):
        self._complete()
        return Missing(self)

    m_isnull = m_isna

    def _same(self, it, inplace):
        # nothing is missing: nothing is filled or dropped
        self._complete()
        return None if inplace is True else Prices(self.n, self.k, self.fn)

    def m_ffill(self, it, inplace=False, **k):
        return self._same(it, inplace)

    def m_dropna(self, it, axis=0, how="any", inplace=False, **k):
        if not self.pad:
            return self._same(it, inplace)
        if axis != 0 or inplace is True:
            raise Unsupported("dropna")
        p = self.pad
        return Prices(const(self.n) - p, self.k, lambda i, j: self.fn(const(i) + p, j))

    def m_shift(self, it, periods=1, **k):
        if periods != 1 or k:
            raise Unsupported("shift")
        return Prices(self.n, self.k, lambda i, j: self.fn(const(i) - 1, j), self.pad + 1)

    def m_pct_change(self, it, periods=1, fill_method=None, **k):
        if periods != 1 or k:
            raise Unsupported("pct_change")
        return Prices(self.n, self.k, lambda i, j: tm.div(self.fn(i, j), self.fn(const(i) - 1, j)) - 1, self.pad + 1)

    def pyvc_binop(self, it, op, y):
        f = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": tm.div}.get(op)
        if f is None:
            raise Unsupported(f"DataFrame {op}")
        if isinstance(y, Prices):
            return Prices(self.n, self.k, lambda i, j: f(self.fn(i, j), y.fn(i, j)), max(self.pad, y.pad))
        y = const(y)
        return Prices(self.n, self.k, lambda i, j: f(self.fn(i, j), y), self.pad)

    def pyvc_map(self, it, f):
        return Prices(self.n, self.k, lambda i, j: f(self.fn(i, j)), self.pad)


class Iloc:
    def __init__(self, df):
        self.df = df

    def pyvc_getitem(self, it, ix):
        df = self.df
        rows, cols = (ix.items if isinstance(ix, SList) else ix) if isinstance(ix, (SList, tuple)) else (ix, slice(None))
        if not isinstance(rows, slice) or not isinstance(cols, slice) or rows.step or cols.step or cols.start:
            raise Unsupported("iloc")
        a = rows.start or 0
        if rows.stop is not None or type(a) is not int or a < 0:
            raise Unsupported("iloc")
        k = df.k if cols.stop is None else cols.stop
        if tm.eq(const(k), const(df.k)) is not tm.TRUE:
            raise Unsupported("iloc")
        if a:
            # at least one row is kept, as the contract requires
            return Prices(const(df.n) - a, k, lambda i, j: df.fn(const(i) + a, j), max(0, df.pad - a))
        return df


class Missing:
    """which values are missing: none"""

    def __init__(self, df):
        self.df = df

    def pyvc_getattr(self, it, name):
        if name in ("sum", "mean"):
            return Method(self.total)
        raise Unsupported(f"isna().{name}")

    def total(self, it, axis=0):
        if axis != 1:
            raise Unsupported("isna().sum")
        return Counts(self.df.n)


class Counts:
    """one zero per row"""

    def __init__(self, n, mask=None):
        self.n, self.mask = n, mask

    def pyvc_compare(self, it, op, y):
        y = const(y)
        t = {"Gt": tm.lt(y, 0), "GtE": tm.le(y, 0), "Lt": tm.lt(0, y), "LtE": tm.le(0, y)}.get(op)
        if t is None:
            raise Unsupported("comparison of counts")
        return Counts(self.n, t)

    def pyvc_getitem(self, it, ix):
        if not isinstance(ix, Counts) or ix.mask is None:
            raise Unsupported("selection of counts")
        return Counts(const(self.n) if it.m.branch(ix.mask) else 0)

    def pyvc_getattr(self, it, name):
        if name == "index":
            return self
        raise Unsupported(f"counts.{name}")

    def pyvc_len(self, it):
        return self.n
