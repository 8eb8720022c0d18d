from ..ctx import H

ID = "C01"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.utils.rowwise_train_test_split", "irspack.utils.random.convert_randomstate",
             "util.hpp SplitFunction::split_imple / SplitByRatioFunction / SplitFixedN (compiled from source)"]
NARROW = True
BOUNDS = ("matrices up to 3x4 with up to 4 stored entries per row; all real non-zero values, all held-out ratios in [0,1] "
          "(and outside, for rejection), every outcome of the shuffle; fixed n up to 6")


def _check(ctx, X, tr, te, n_test_ok):
    ex, et, ee = ctx.entries(X), ctx.entries(tr), ctx.entries(te)
    ctx.check("shape", tuple(tr.shape) == tuple(X.shape) and tuple(te.shape) == tuple(X.shape))
    ctx.check("disjoint", not (set(et) & set(ee)))
    ctx.check("covers", set(et) | set(ee) == set(ex))
    for k in ex:
        got = et.get(k, ee.get(k))
        if got is not None:
            ctx.eq(f"value{k}", got, ex[k])
    for i in range(X.shape[0]):
        n = sum(1 for k in ex if k[0] == i)
        m = sum(1 for k in ee if k[0] == i)
        n_test_ok(i, n, m)


def ratio(ctx, pattern, n_cols, ceil, fmt="csr"):
    from irspack.utils import rowwise_train_test_split

    X = ctx.sparse("x", pattern, n_cols, fmt=fmt)
    for v in X.data:
        ctx.assume(v != 0)
    r = ctx.real("ratio", lo=0, hi=1)
    tr, te = rowwise_train_test_split(X, test_ratio=r, ceil_n_heldout=ceil, random_state=ctx.rng())

    def ok(i, n, m):
        t = r * n
        if ceil:
            ctx.check(f"count{i}", ctx.and_(m >= t, m < t + 1))
        else:
            ctx.check(f"count{i}", ctx.and_(m <= t, t < m + 1))

    ctx.reach("split")
    _check(ctx, X, tr, te, ok)


def fixed_n(ctx, pattern, n_cols):
    from irspack.utils import rowwise_train_test_split

    X = ctx.sparse("x", pattern, n_cols)
    for v in X.data:
        ctx.assume(v != 0)
    n = ctx.int("n", 0, 6)
    ni = int(n)
    tr, te = rowwise_train_test_split(X, n_test=ni, random_state=ctx.rng())
    ctx.reach(f"n={ni}")
    _check(ctx, X, tr, te, lambda i, k, m: ctx.check(f"count{i}", m == min(k, ni)))


def bad_ratio(ctx):
    from irspack.utils import rowwise_train_test_split

    X = ctx.sparse("x", [[0, 1]], 2)
    r = ctx.real("ratio")
    ctx.assume(ctx.or_(r < 0, r > 1))
    ctx.raises("ratio outside [0,1] is rejected", (ValueError, RuntimeError),
               lambda: rowwise_train_test_split(X, test_ratio=r, random_state=ctx.rng()))


def original_untouched(ctx, pattern, n_cols):
    from irspack.utils import rowwise_train_test_split

    X = ctx.sparse("x", pattern, n_cols)
    before = ctx.entries(X)
    rowwise_train_test_split(X, test_ratio=ctx.real("ratio", lo=0, hi=1), random_state=ctx.rng())
    after = ctx.entries(X)
    ctx.check("same structure", set(after) == set(before))
    for k in before:
        ctx.eq(f"x{k}", after[k], before[k])


_P = [[0, 2, 3], [1], []]
HARNESSES = [
    H("ratio", ratio, [dict(pattern=p, n_cols=4, ceil=c) for p in (_P, [[0, 1, 2, 3]], [[3, 1], [0, 2]])
                       for c in (False, True)] + [dict(pattern=[[0, 2], [1, 2]], n_cols=3, ceil=False, fmt="csc")],
      [dict(pattern=[[0, 1, 2, 3], [0, 3]], n_cols=4, ceil=c) for c in (False, True)]),
    H("fixed_n", fixed_n, [dict(pattern=_P, n_cols=4), dict(pattern=[[0, 1, 2, 3]], n_cols=4)],
      [dict(pattern=[[0, 1, 2, 3], [0, 3], [1]], n_cols=4)]),
    H("bad_ratio", bad_ratio, [dict()]),
    H("original_untouched", original_untouched, [dict(pattern=[[0, 2], [1]], n_cols=3)]),
]
for _h in HARNESSES:
    _h.tol = 1e-9
