import os

from ..ctx import H

ID = "C25"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.utils.sparse_mm_threaded", "irspack._threading.get_n_threads",
             "util.hpp parallel_sparse_product (compiled from source; worker threads under the symbolic scheduler)"]
NARROW = True
BOUNDS = ("left factors up to 34 rows (2 work chunks and a remainder), right factors up to 3 columns, arbitrary real values; "
          "1..3 threads, all schedules with at most 2 scheduling delays at atomic operations / thread start / thread end")


def mm(ctx, left, k, right, n_cols, threads):
    from irspack.utils import sparse_mm_threaded

    A = ctx.sparse("a", left, k)
    B = ctx.sparse("b", right, n_cols, fmt="csc")
    a, b = ctx.entries(A), ctx.entries(B)
    got = sparse_mm_threaded(A, B, threads)
    ctx.all_eq("left factor kept", A, [[a.get((i, t), 0) for t in range(k)] for i in range(len(left))])
    ctx.all_eq("right factor kept", B, [[b.get((t, j), 0) for j in range(n_cols)] for t in range(k)])
    ctx.check("shape", tuple(got.shape) == (len(left), n_cols))
    for i in range(len(left)):
        for j in range(n_cols):
            ref = sum((a[i, t] * b[t, j] for t in left[i] if j in right[t]), ctx.const(0))
            ctx.eq(f"[{i},{j}]", got[i, j], ref)
    ctx.reach("product")


def zero_threads(ctx):
    from irspack.utils import sparse_mm_threaded

    A = ctx.sparse("a", [[0]], 1)
    ctx.raises("zero threads", (ValueError, RuntimeError), lambda: sparse_mm_threaded(A, A.tocsc(), 0))


def n_threads(ctx):
    from irspack._threading import get_n_threads

    old = os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
    try:
        n = ctx.int("n", 0, 64)
        ctx.check("explicit value wins", get_n_threads(n) == n)
        mode = ctx.choice("mode", ["set", "unset", "bad"])
        if mode == "set":
            m = ctx.pick("m", 5) + 1
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = str(m)
            ctx.check("environment", get_n_threads(None) == m)
            ctx.check("explicit value wins over environment", get_n_threads(n) == n)
        elif mode == "unset":
            ctx.check("default", get_n_threads(None) == (os.cpu_count() or 1))
        else:
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = ctx.choice("s", ["x", "1.5", "four"])
            ctx.raises("malformed", ValueError, lambda: get_n_threads(None))
            ctx.check("explicit value wins over malformed environment", get_n_threads(n) == n)
    finally:
        os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        if old is not None:
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = old


R = [[0, 1], [1], [0, 2]]


def _long(n):
    return [[i % 3] if i % 5 == 0 or i in (n - 1, 15, 16) else [] for i in range(n)]


HARNESSES = [
    H("product", mm,
      [dict(left=[[0, 1, 2], [], [1, 2]], k=3, right=R, n_cols=3, threads=t) for t in (1, 2, 3)]
      + [dict(left=[[0, 2]], k=3, right=R, n_cols=3, threads=3)]
      + [dict(left=_long(n), k=3, right=R, n_cols=3, threads=t) for n in (16, 17, 33) for t in (1, 2)]
      + [dict(left=_long(34), k=3, right=R, n_cols=3, threads=3)],
      [dict(left=_long(49), k=3, right=R, n_cols=3, threads=4)]),
    H("zero_threads", zero_threads, [dict()]),
    H("n_threads", n_threads, [dict()]),
]
for _h in HARNESSES:
    _h.tol = 1e-9
