"""V17: linear constraints written as text mean what they say."""

import itertools
import random

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from skfolio.exceptions import DuplicateGroupsError, EquationToMatrixError, GroupNotFoundError
from skfolio.utils.equations import equations_to_matrix, group_cardinalities_to_matrix

NAMES = ["a", "b", "c"]
# a side: list of (sign, coefficient or None, group or None); group None is a number
SIDES = [
    [(1, None, "a")],
    [(1, 2.5, "a")],
    [(-1, None, "a")],
    [(1, None, "a"), (1, None, "b")],
    [(1, None, "a"), (-1, 0.5, "b")],
    [(1, 3.0, "a"), (-1, None, "b"), (1, 0.2, None)],
    [(1, 0.4, None)],
    [(-1, 0.7, None)],
    [(-1, 0.3, None), (1, 2.0, "b")],
    [(-1, 2.0, "a"), (-1, 0.1, None), (-1, 4.0, "a"), (1, None, "c")],
]


def _text(side, after):
    out = ""
    for k, (s, c, g) in enumerate(side):
        out += " - " if s < 0 else (" + " if k else "")
        if g is None:
            out += str(c)
        elif c is None:
            out += g
        else:
            out += f"{g} * {c}" if after else f"{c}*{g}"
    return out.strip()


def _member(groups, levels, g):
    return lambda i: tm.or_(*[tm.eq(groups.get(l, i), const(g)) for l in range(levels)])


def _row(left, right, op, groups, levels, n, sum_to_one):
    """coefficients and bound of `left op right` written as row @ w <= bound"""
    flip = -1 if op == ">=" else 1
    terms, bound = [], 0
    for way, side in ((1, left), (-1, right)):
        for s, c, g in side:
            if g is None:
                bound -= way * s * const(c)
                continue
            m = _member(groups, levels, g)
            size = tm.bigsum(n, lambda i, m=m: tm.ind(m(i))) if sum_to_one else const(1)
            terms.append((way * s * const(1 if c is None else c), m, size))
    row = lambda i: flip * sum((k * tm.ind(m(i)) / size for k, m, size in terms), const(0))
    return row, flip * bound


def _groups(cx, levels):
    n = cx.dim("n_assets", 1, run=(1, 5), bnd=(2,))
    return n, cx.names("groups", (levels, n), [NAMES, ["x", "y"]])


def _one(cx, pairs, sum_to_one, op, levels=1):
    n, groups = _groups(cx, levels)
    left, right = cx.choice("sides", pairs)
    after = cx.choice("coefficient after the group", [False, True])
    used = sorted({g for _, _, g in left + right if g})
    for g in used:
        cx.requires(tm.exists(n, _member(groups, levels, g)))
    for c in {str(c) for _, c, _ in left + right if c is not None}:
        # names that read as numbers are ambiguous
        cx.requires(tm.forall(n, lambda i: tm.not_(_member(groups, levels, c)(i))))
    text = f"{_text(left, after)} {op} {_text(right, after)}"
    ae, be, ai, bi = cx.items(cx.call(equations_to_matrix, groups, [text], sum_to_one=sum_to_one))
    row, bound = _row(left, right, "<=" if op == "==" or op == "=" else op, groups, levels, n, sum_to_one)
    A, B, E, F = (ae, be, ai, bi) if op in ("==", "=") else (ai, bi, ae, be)
    A, B = cx.arr(A), cx.arr(B)
    cx.ensures("one row per equation", tm.and_(tm.eq(A.shape[0], 1), tm.eq(cx.arr(E).shape[0], 0), tm.eq(cx.arr(F).shape[0], 0)))
    cx.ensures("coefficients of the assets", tm.forall(n, lambda i: tm.eq(A.get(0, i), row(i))))
    cx.ensures("right hand side", tm.eq(B.get(0), bound))
    cx.total("the equation is accepted")


def _random(n):
    r = random.Random(5)
    out = []
    while len(out) < n:
        ab = [[(r.choice([1, -1]), r.choice([None, round(r.uniform(0, 3), 2)]), r.choice(NAMES + [None])) for _ in range(r.randint(1, 4))] for _ in "ab"]
        ab = [[(s, 0.25 if c is None and g is None else c, g) for s, c, g in x] for x in ab]
        if any(g for x in ab for _, _, g in x):
            out.append(tuple(ab))
    return out


RANDOM = _random(400)
PAIRS = [(a, b) for a, b in itertools.product(SIDES, SIDES) if any(g for _, _, g in a + b)]

for _op in ["<=", ">=", "==", "="]:
    for _s in (False, True):

        @contract("V17", f"equation with {_op}" + (", group averages" if _s else ""), ["skfolio.utils.equations.equations_to_matrix"], bound="the listed shapes of equations", runs=60, unroll=True)
        def _c(cx, op=_op, s=_s):
            _one(cx, PAIRS if not cx.run else RANDOM, s, op)


@contract("V17", "several equations and group levels", ["skfolio.utils.equations.equations_to_matrix"], bound="the listed equations", runs=40, unroll=True)
def several(cx):
    n, groups = _groups(cx, 2)
    eqs = [([(1, None, "a")], "<=", [(1, 0.3, None)]), ([(1, None, "x")], "==", [(1, 0.5, "a")]), ([(1, 2.0, "b")], ">=", [(1, None, "x"), (-1, 0.1, None)]), ([(1, 0.9, None)], "=", [(1, None, "x"), (1, None, "b")])]
    eqs = cx.choice("order", [list(p) for p in list(itertools.permutations(eqs))[::5]])
    for g, l in (("a", 0), ("b", 0), ("x", 1)):
        cx.requires(tm.exists(n, lambda i: tm.eq(groups.get(l, i), const(g))))
    for c in ("0.3", "0.5", "2.0", "0.1", "0.9"):
        cx.requires(tm.forall(n, lambda i: tm.not_(_member(groups, 2, c)(i))))
    cx.requires(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.ne(groups.get(0, i), groups.get(1, j)))))
    out = [cx.arr(v) for v in cx.items(cx.call(equations_to_matrix, groups, [f"{_text(a, False)} {op} {_text(b, False)}" for a, op, b in eqs]))]
    for kind, A, B, ops in (("equalities", *out[:2], ("==", "=")), ("inequalities", *out[2:], ("<=", ">="))):
        rows = [_row(a, b, ">=" if op == ">=" else "<=", groups, 2, n, False) for a, op, b in eqs if op in ops]
        cx.ensures(f"{kind} in the order given", tm.and_(tm.eq(A.shape[0], len(rows)), *[tm.and_(tm.forall(n, lambda i, k=k, r=r: tm.eq(A.get(k, i), r[0](i))), tm.eq(B.get(k), r[1])) for k, r in enumerate(rows)]))


@contract("V17", "equations with a missing group", ["skfolio.utils.equations.equations_to_matrix"], runs=30, unroll=True)
def missing(cx):
    n, groups = _groups(cx, 1)
    strict = cx.choice("raise_if_group_missing", [False, True])
    cx.requires(tm.exists(n, _member(groups, 1, "a")))
    for c in ("0.3", "2", "d"):
        cx.requires(tm.forall(n, lambda i: tm.not_(_member(groups, 1, c)(i))))
    bad = cx.choice("equation", ["d <= 0.3", "a >= d", "d*2 = a"])
    how, r = cx.attempt(equations_to_matrix, groups, [bad, "a <= 0.3"], raise_if_group_missing=strict)
    if strict:
        cx.ensures("a missing group is refused", how == "raise" and isinstance(r, GroupNotFoundError))
    else:
        cx.ensures("a missing group is skipped", how == "ok")
        ae, be, A, B = [cx.arr(v) for v in cx.items(r)]
        cx.ensures("the other equations are kept", tm.and_(tm.eq(ae.shape[0], 0), tm.eq(A.shape[0], 1), tm.forall(n, lambda i: tm.eq(A.get(0, i), tm.ind(tm.eq(groups.get(0, i), const("a"))))), tm.eq(B.get(0), const(0.3))))


@contract("V17", "malformed equations", ["skfolio.utils.equations.equations_to_matrix"], runs=30, unroll=True)
def malformed(cx):
    n, groups = _groups(cx, 1)
    for g in ("a", "b"):
        cx.requires(tm.exists(n, _member(groups, 1, g)))
    for c in ("0.3", "2", "3", "d", "<=", ">=", "=", "==", "+", "-", "*"):
        cx.requires(tm.forall(n, lambda i: tm.not_(_member(groups, 1, c)(i))))
    bad = cx.choice("equation", ["a", "a + b", "a < 0.3", "a > 0.3", "* a <= 2", "a <= 2 * 3", "a + + b <= 2", "a <= + ", "a <= 2*d", "2 * <= a", "a <= ", "a =< 3", "a >= * b"])
    how, r = cx.attempt(equations_to_matrix, groups, [bad])
    cx.ensures("a malformed equation is refused", how == "raise" and isinstance(r, EquationToMatrixError))


@contract("V17", "group cardinalities", ["skfolio.utils.equations.group_cardinalities_to_matrix"], runs=40)
def cardinalities(cx):
    n, groups = _groups(cx, 2)
    strict = cx.choice("raise_if_group_missing", [False, True])
    k = [cx.int(f"cardinality {g}", 0, run=(0, 4)) for g in "abx"]
    missing = cx.choice("a group is missing", [False, True])
    for g, l in (("a", 0), ("b", 0), ("x", 1)):
        cx.requires(tm.exists(n, lambda i: tm.eq(groups.get(l, i), const(g))))
    cx.requires(tm.forall(n, lambda i: tm.not_(_member(groups, 2, "d")(i))))
    cx.requires(tm.forall(n, lambda i: tm.forall(n, lambda j: tm.ne(groups.get(0, i), groups.get(1, j)))))
    d = dict(b=k[1], d=const(1), x=k[2], a=k[0]) if missing else dict(b=k[1], x=k[2], a=k[0])
    how, r = cx.attempt(group_cardinalities_to_matrix, groups, d if not cx.run else {g: int(tm.numval(const(v))) for g, v in d.items()}, raise_if_group_missing=strict)
    if missing and strict:
        cx.ensures("a missing group is refused", how == "raise" and isinstance(r, (EquationToMatrixError, GroupNotFoundError)))
        return
    cx.ensures("a missing group is skipped", how == "ok")
    A, B = [cx.arr(v) for v in cx.items(r)]
    cx.ensures("one row per group found", tm.and_(tm.eq(A.shape[0], 3), *[tm.and_(tm.forall(n, lambda i, q=q, g=g: tm.eq(A.get(q, i), tm.ind(_member(groups, 2, g)(i)))), tm.eq(B.get(q), v)) for q, (g, v) in enumerate((("b", k[1]), ("x", k[2]), ("a", k[0])))]))


@contract("V17", "a name in two levels", ["skfolio.utils.equations.equations_to_matrix"], runs=40)
def duplicate(cx):
    n, groups = _groups(cx, 2)
    i, j = cx.int("asset 1", 0, run=(0, 4)), cx.int("asset 2", 0, run=(0, 4))
    cx.requires(tm.and_(tm.lt(i, n), tm.lt(j, n)))
    if cx.run:
        groups.real[0, int(tm.numval(const(i)))] = "z"
        groups.real[1, int(tm.numval(const(j)))] = "z"
    else:
        cx.requires(tm.eq(groups.get(0, i), groups.get(1, j)))
    how, r = cx.attempt(equations_to_matrix, groups, ["a <= 0.5"])
    cx.ensures("a name in two levels is refused", how == "raise" and isinstance(r, DuplicateGroupsError))
