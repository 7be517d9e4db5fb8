"""V02: combinatorial purged cross-validation."""

import itertools

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from skfolio.model_selection import CombinatorialPurgedCV

C = "skfolio.model_selection.CombinatorialPurgedCV."
FOLDS = [(3, 2), (4, 2), (4, 3), (5, 2), (5, 3)]
MORE = [*FOLDS, (6, 2), (6, 3), (6, 4), (7, 5), (10, 8)]


def member(a, x):
    return tm.exists(a.shape[0], lambda i: tm.eq(a.get(i), x))


def _split(cx, folds, part=0, parts=1):
    k, t = cx.choice("folds", folds)
    n = cx.dim("n_samples", 1, run=(2 * k, 11 * k), bnd=(2 * k, 3 * k - 1))
    pu = cx.int("purged_size", 0, run=(0, 4))
    em = cx.int("embargo_size", 0, run=(0, 4))
    m = tm.floor(tm.div(const(n), const(k)))
    cx.requires(tm.lt(const(pu) + em, m - 1))
    X = cx.array("X", (n, 2))
    cx.total()
    cv = cx.new(CombinatorialPurgedCV, n_folds=k, n_test_folds=t, purged_size=pu, embargo_size=em)
    combos = list(itertools.combinations(range(k), t))
    first = lambda j: m * j
    last = lambda j: const(n) if j == k - 1 else m * (j + 1)
    inside = lambda j, x: tm.and_(tm.le(first(j), x), tm.lt(x, last(j)))
    cnt = [0]

    def item(i, v):
        train, tests = cx.items(v)
        tests = [cx.arr(a) for a in cx.items(tests)]
        train = cx.arr(train)
        i = cnt[0]
        cnt[0] += 1
        if not cx.run and i % parts != part:
            return
        cx.ensures("one split per combination of test folds", const(i < len(combos) and len(tests) == t))
        for j, a in zip(combos[i], tests):
            cx.ensures("test folds are the contiguous blocks of the combination, the last one taking the remainder", tm.forall(n, lambda x: tm.iff(member(a, x), inside(j, x))))
        # observations excluded around test folds
        def excluded(x):
            out = [inside(j, x) for j in combos[i]]
            for j in combos[i]:
                if j > 0 and j - 1 not in combos[i]:
                    out.append(tm.and_(tm.lt(x, first(j)), tm.le(first(j), x + pu)))
                if j < k - 1 and j + 1 not in combos[i]:
                    out.append(tm.and_(tm.le(last(j), x), tm.lt(x, last(j) + pu + em)))
            return tm.or_(*out)

        for j in combos[i]:
            cx.ensures("training set excludes the test folds", tm.forall(n, lambda x: tm.implies(inside(j, x), tm.not_(member(train, x)))))
            if j > 0 and j - 1 not in combos[i]:
                cx.ensures("training set excludes the purged observations before each test fold", tm.forall(pu, lambda q: tm.not_(member(train, first(j) - 1 - q))))
            if j < k - 1 and j + 1 not in combos[i]:
                cx.ensures("training set excludes the purged and embargoed observations after each test fold", tm.forall(const(pu) + em, lambda q: tm.not_(member(train, last(j) + q))))
        cx.ensures("training set keeps every other observation", tm.forall(n, lambda x: tm.implies(tm.not_(excluded(x)), member(train, x))))
        cx.ensures("training indices lie inside the sample", tm.forall(train.shape[0], lambda q: tm.and_(tm.le(0, train.get(q)), tm.lt(train.get(q), n))))

    def end(c):
        cx.ensures("number of splits", const(cnt[0] == len(combos)))
        cx.ensures("announced number of splits", tm.eq(cx.num(cx.get(cv, "n_splits")), len(combos)))

    cx.generate(cv.split if cx.run else cx.it.getattr(cv, "split"), X, on_item=item, on_end=end)
    cx.unmodified(X)


def _reg(f, part, parts):
    more = "" if parts == 1 else f", part {part + 1} of {parts}"

    @contract("V02", f"combinatorial splits, {f[0]} folds, {f[1]} test folds{more}", C + "split", runs=30, cost=9, budget=300, sym=f[0] == 3)
    def split(cx):
        _split(cx, MORE if cx.run else [f], part, parts)


for _f, _n in (((3, 2), 3), ((4, 2), 2), ((4, 3), 1), ((5, 2), 2), ((5, 3), 2)):
    for _p in range(_n):
        _reg(_f, _p, _n)


@contract("V02", "recombined test paths", [C + "get_path_ids", C + "recombined_paths", C + "binary_train_test_sets", C + "test_set_index", C + "n_test_paths"])
def paths(cx):
    k, t = cx.choice("folds", MORE[:-1])
    cx.total()
    cv = cx.new(CombinatorialPurgedCV, n_folds=k, n_test_folds=t)
    combos = list(itertools.combinations(range(k), t))
    ids = cx.arr(cx.method(cv, "get_path_ids"))
    cx.ensures("one path number per split and test fold", const(tuple(int(tm.numval(const(d))) for d in ids.shape) == (len(combos), t)))
    val = lambda i, j: int(tm.numval(ids.get(i, j)))
    n_paths = int(tm.numval(cx.num(cx.get(cv, "n_test_paths"))))
    cx.ensures("number of test paths", const(n_paths * k == len(combos) * t))
    cover = {}
    for i, c in enumerate(combos):
        for j, fold in enumerate(c):
            cover.setdefault(val(i, j), []).append(fold)
    cx.ensures("paths are numbered from zero", const(sorted(cover) == list(range(n_paths))))
    cx.ensures("every path visits every fold exactly once", const(all(sorted(v) == list(range(k)) for v in cover.values())))
