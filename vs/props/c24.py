from ..ctx import H

ID = "C24"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.utils.okapi_BM_25_weight / tf_idf_weight / remove_diagonal / l1_normalize_row",
             "util.hpp okapi_BM_25_weight, tf_idf_weight, remove_diagonal (compiled from source)"]
NARROW = True
BOUNDS = ("matrices up to 4x4 with fixed sparsity patterns (empty rows / columns / diagonal entries included), all real stored "
          "values; BM25 for all k1, b; log is an uninterpreted function pinned to its exact values on integers and their ratios")


def _same(ctx, label, got, pattern, n_cols, ref):
    ctx.check(f"{label} shape", tuple(got.shape) == (len(pattern), n_cols))
    d = ctx.dense(got)
    for i in range(len(pattern)):
        for j in range(n_cols):
            ctx.eq(f"{label}[{i},{j}]", d[i][j], ref(i, j) if j in pattern[i] else 0)


def _df(pattern, j):
    return sum(1 for r in pattern if j in r)


def bm25(ctx, pattern, n_cols, fmt="csr", default=False):
    from irspack.utils import okapi_BM_25_weight

    X = ctx.sparse("x", pattern, n_cols, fmt=fmt, pos=True, hi=8)
    x = ctx.entries(X)
    if default:
        k1, b = ctx.const(1.2), ctx.const(0.75)
        got = okapi_BM_25_weight(X)
    else:
        k1, b = ctx.real("k1", lo=0, hi=4), ctx.real("b", lo=0, hi=1)
        ctx.assume(k1 > 0)
        got = okapi_BM_25_weight(X, k1, b)
    N = len(pattern)
    L = [sum((x[i, j] for j in pattern[i]), ctx.const(0)) for i in range(N)]
    avg = ctx.div(sum(L, ctx.const(0)), N)

    def ref(i, j):
        # the IDF used throughout the package: log(1 + N / (df + 1))
        idf = ctx.log(ctx.const(1) + ctx.div(ctx.const(N), _df(pattern, j) + 1))
        tf = x[i, j]
        reg = k1 * (1 - b + b * ctx.div(L[i], avg))
        return ctx.div(idf * tf * (k1 + 1), tf + reg)

    _same(ctx, "bm25", got, pattern, n_cols, ref)
    _untouched(ctx, X, x)
    ctx.reach("bm25")


def _untouched(ctx, X, before):
    after = ctx.entries(X)
    ctx.check("input structure unchanged", set(after) == set(before))
    for k in before:
        ctx.eq(f"input{k}", after.get(k, 0), before[k])


def tfidf(ctx, pattern, n_cols, fmt="csr", smooth=None):
    from irspack.utils import tf_idf_weight

    X = ctx.sparse("x", pattern, n_cols, fmt=fmt)
    x = ctx.entries(X)
    got = tf_idf_weight(X) if smooth is None else tf_idf_weight(X, smooth)
    s = 0 if smooth is False else 1
    N = len(pattern)
    _same(ctx, "tfidf", got, pattern, n_cols,
          lambda i, j: x[i, j] * ctx.log(ctx.div(ctx.const(N), _df(pattern, j) + s)))
    _untouched(ctx, X, x)


def diag(ctx, pattern, n_cols, fmt="csr"):
    from irspack.utils import remove_diagonal

    X = ctx.sparse("x", pattern, n_cols, fmt=fmt)
    x = ctx.entries(X)
    if len(pattern) != n_cols:
        ctx.raises("non-square rejected", (ValueError, RuntimeError), lambda: remove_diagonal(X))
        return
    got = remove_diagonal(X)
    _same(ctx, "off-diagonal", got, pattern, n_cols, lambda i, j: 0 if i == j else x[i, j])
    _untouched(ctx, X, x)


def l1(ctx, pattern, n_cols, fmt="csc"):
    from irspack.utils import l1_normalize_row

    X = ctx.sparse("x", pattern, n_cols, fmt=fmt, pos=True)
    x = ctx.entries(X)
    got = l1_normalize_row(X)
    _same(ctx, "l1", got, pattern, n_cols,
          lambda i, j: ctx.div(x[i, j], sum((x[i, k] for k in pattern[i]), ctx.const(0))))
    for i, r in enumerate(pattern):
        if r:
            d = ctx.dense(got)
            ctx.eq(f"row {i} sums to one", sum(d[i], ctx.const(0)), 1)
    _untouched(ctx, X, x)


P1 = [[0, 2], [1, 2], []]
P2 = [[0, 1, 2], [2], [0, 3], [1, 3]]
P3 = [[1], [1, 0]]
HARNESSES = [
    H("bm25", bm25, [dict(pattern=P1, n_cols=3), dict(pattern=P3, n_cols=4, fmt="csc"),
                     dict(pattern=P1, n_cols=3, default=True), dict(pattern=[[0, 1], [0], [0, 2]], n_cols=3)],
      [dict(pattern=P2, n_cols=4)]),
    H("tfidf", tfidf, [dict(pattern=p, n_cols=4, fmt=f, smooth=s) for p in (P1, P2, P3) for f in ("csr", "csc")
                       for s in (None, True, False)]),
    H("remove_diagonal", diag, [dict(pattern=P2, n_cols=4, fmt=f) for f in ("csr", "csc")]
      + [dict(pattern=[[0, 1], [], [0, 2]], n_cols=3), dict(pattern=P3, n_cols=3), dict(pattern=[[0], [1], [0, 1]], n_cols=2)]),
    H("l1_normalize_row", l1, [dict(pattern=P1, n_cols=3), dict(pattern=P2, n_cols=4), dict(pattern=P3, n_cols=2)]),
]
for _h in HARNESSES:
    _h.tol = 1e-9
