"""V01: walk-forward splits."""

import datetime as dt

import numpy as np
import pandas as pd

from pyvc import pdmodel, skmodel
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from pyvc.values import SList
from skfolio.model_selection import WalkForward

TARGETS = ["skfolio.model_selection.WalkForward.split", "skfolio.model_selection.WalkForward.get_n_splits"]


@contract("V01", "splits by number of observations", TARGETS)
def by_size(cx):
    n = cx.dim("n_samples", 1, run=(2, 30), bnd=(3, 4, 5))
    tr = cx.int("train_size", 1, run=(1, 8))
    te = cx.int("test_size", 1, run=(1, 7))
    pu = cx.int("purged_size", 0, run=(0, 3))
    expend, reduce = cx.bool("expend_train"), cx.bool("reduce_test")
    cx.requires(tm.lt(const(tr) + pu, n))
    X = cx.array("X", (n, 2))
    cx.total()
    cv = cx.new(WalkForward, train_size=tr, test_size=te, purged_size=pu, expend_train=expend, reduce_test=reduce)
    ns = cx.method(cv, "get_n_splits", X)

    def item(k, v):
        train, test = [cx.arr(a) for a in cx.items(v)]
        start = const(tr) + pu + const(k) * te
        nt, nv = const(train.shape[0]), const(test.shape[0])
        cx.ensures("test window k starts after train_size + purged_size + k * test_size observations and is contiguous", tm.forall(nv, lambda i: tm.eq(test.get(i), start + i)))
        cx.ensures(
            "training window is contiguous and ends purged_size observations before the test window",
            tm.forall(nt, lambda i: tm.eq(train.get(i), start - pu - nt + i)),
        )
        cx.ensures("training window size", tm.eq(nt, start - pu if expend else tr))
        full = tm.eq(nv, te)
        cut = tm.and_(const(reduce), tm.eq(nv, n - start), tm.lt(0, nv), tm.lt(nv, te))
        cx.ensures("test window size", tm.or_(full, cut))
        cx.ensures("test window inside the sample", tm.le(start + nv, n))

    def end(cnt):
        cx.ensures("number of splits equals get_n_splits", tm.eq(cnt, ns))
        left = const(n) - (const(tr) + pu + const(cnt) * te)
        cx.ensures("no further test window fits", tm.le(left, 0) if reduce else tm.lt(left, te))

    cx.generate(cv.split if cx.run else cx.it.getattr(cv, "split"), X, on_item=item, on_end=end)
    cx.unmodified(X)


def _period(cx, offset_mode, reduce, expend):
    n = cx.dim("n_samples", 1, run=(20, 90), bnd=(3, 4))
    te = cx.int("test_size", 1, run=(1, 3))
    pu = cx.int("purged_size", 0, run=(0, 3))
    previous = cx.bool("previous")
    has_off = cx.bool("has_freq_offset")
    off = cx.int("freq_offset_days", run=(-20, 20)) if has_off else None
    tr = cx.int("train_days", 0, run=(5, 70)) if offset_mode else cx.int("train_size", 1, run=(1, 3))
    if cx.run:
        freq = cx.choice("freq", ["MS", "W-WED", "2W", "ME", "WOM-3FRI"])
        first = cx.int("first_day", 0, run=(0, 40))
        drop = cx.int("drop", 0, run=(0, 10**6))
        ix = pd.bdate_range("2020-01-01", periods=n + first + 60)[first:]
        keep = np.random.default_rng(drop).random(len(ix)) < 0.8
        ix = ix[keep][:n]
        cx.requires(tm.eq(const(len(ix)), n))
        X = pd.DataFrame(np.zeros((n, 2)), index=ix)
        cv = WalkForward(
            test_size=te,
            train_size=dt.timedelta(days=int(tr)) if offset_mode else tr,
            freq=freq,
            freq_offset=None if off is None else dt.timedelta(days=int(off)),
            previous=previous,
            expend_train=expend,
            reduce_test=reduce,
            purged_size=pu,
        )
        split = cv.split
    else:
        it = cx.it
        X = pdmodel.Frame(cx.array("X", (n, 2)), pdmodel.TsIndex(it, n))
        if offset_mode:
            tr = cx.real("train_days_r", 0)
        if off is not None:
            off = cx.real("freq_offset_days_r")
        cv = cx.new(WalkForward, test_size=te, train_size=tr, freq="MS", freq_offset=off, previous=previous, expend_train=expend, reduce_test=reduce, purged_size=pu)
        split = it.getattr(cv, "split")
    prev = []

    def item(k, v):
        train, test = [cx.arr(a) for a in cx.items(v)]
        nt, nv = const(train.shape[0]), const(test.shape[0])
        cx.ensures(
            "every training observation precedes every test observation by more than purged_size",
            tm.forall(nt, lambda i: tm.forall(nv, lambda j: tm.lt(train.get(i) + pu, test.get(j)))),
        )
        cx.ensures("test indices are positions of the sample", tm.forall(nv, lambda j: tm.and_(tm.le(0, test.get(j)), tm.lt(test.get(j), n))))
        cx.ensures("training indices are positions of the sample", tm.forall(nt, lambda j: tm.and_(tm.le(0, train.get(j)), tm.lt(train.get(j), n))))
        cx.ensures("training window is contiguous", tm.forall(nt, lambda i: tm.eq(train.get(i), train.get(tm.ZERO) + i)))
        cx.ensures("test window is contiguous", tm.forall(nv, lambda i: tm.eq(test.get(i), test.get(tm.ZERO) + i)))
        if expend:
            cx.ensures("expanding training window starts at the first observation", tm.implies(tm.lt(0, nt), tm.eq(train.get(tm.ZERO), 0)) if not (cx.run and nt is tm.ZERO) else tm.TRUE)
        cx.ensures(
            "exactly purged_size observations separate training and test",
            tm.implies(tm.and_(tm.lt(0, nt), tm.lt(0, nv)), tm.eq(train.get(nt - 1) + pu + 1, test.get(tm.ZERO))) if not (cx.run and (nt is tm.ZERO or nv is tm.ZERO)) else tm.TRUE,
        )
        if cx.run:
            if prev:
                cx.ensures("consecutive test windows follow each other without gap or overlap", tm.implies(tm.lt(0, nv), tm.eq(prev[-1], test.get(tm.ZERO))))
            if not (nv is tm.ZERO):
                prev.append(test.get(nv - 1) + 1)
        elif isinstance(k, tm.T) and k.op == "var":
            here = test.get(tm.ZERO) + nv
            nxt = tm.subst(test.get(tm.ZERO), {k.args[0]: k + 1})
            # the last (reduced) window has no successor
            cx.ensures("consecutive test windows follow each other without gap or overlap", tm.or_(tm.eq(here, nxt), tm.eq(here, n), tm.le(nv, 0)))

    if cx.run:
        # pandas frames are passed as they are
        cnt = 0
        for v in split(X):
            from pyvc.contract import back_real

            item(cnt, back_real(v))
            cnt += 1
        cx.ensures("number of splits equals get_n_splits", tm.eq(const(cnt), int(cv.get_n_splits(X))))
    else:
        cx.generate(split, X, on_item=item)


ASSUME = ["pandas: DatetimeIndex strictly increasing; date_range yields dates in [start, end]; get_indexer(ffill/bfill) contract; offsets are fixed time spans"]


def _register(offset_mode, reduce, expend):
    what = "as an offset" if offset_mode else "in periods"

    @contract("V01", f"splits by calendar period, training length {what}, reduce_test={reduce}, expend_train={expend}", TARGETS, assumptions=ASSUME)
    def by_period(cx):
        _period(cx, offset_mode, reduce, expend)


for _o in (False, True):
    for _r in (False, True):
        for _e in (False, True):
            _register(_o, _r, _e)


@contract("V01", "number of splits by calendar period", TARGETS[1], assumptions=["split used by its contract: a finite sequence of (train, test) pairs"])
def n_splits_by_period(cx):
    n = cx.dim("n_samples", 1, run=(20, 90), bnd=(3, 4))
    if cx.run:
        return _period(cx, cx.bool("mode"), cx.bool("reduce_test"), cx.bool("expend_train"))
    it = cx.it
    m = it.m.fresh("number_of_splits", "I")
    it.m.assume(tm.le(0, m))
    it.contracts[WalkForward.split] = lambda it, self, X, y=None, groups=None: SList(n=m, fn=lambda i: SList([None, None], is_tuple=True))
    X = pdmodel.Frame(cx.array("X", (n, 2)), pdmodel.TsIndex(it, n))
    cv = cx.new(WalkForward, test_size=cx.int("test_size", 1), train_size=cx.int("train_size", 1), freq="MS", reduce_test=cx.bool("reduce_test"), purged_size=cx.int("purged_size", 0))
    cx.ensures("number of splits equals get_n_splits", tm.eq(cx.method(cv, "get_n_splits", X), m))
