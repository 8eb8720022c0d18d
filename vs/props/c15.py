from itertools import permutations, product

import numpy as np

from ..ctx import H

ID = "C15"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.recommenders.SLIMRecommender", "util.hpp SLIM<Real, positive_only> (compiled from source; blocks of 2 columns)"]
BOUNDS = ("up to 3 items x 3 users (5 items for the blocking), symbolic interaction values or symbolic alpha / l1_ratio, 1..3 sweeps, "
          "every visiting order of the coordinates, top_k 0..n, 1..2 threads with at most 2 scheduling delays; exact reals "
          "(float32 rounding is outside)")
CHECK_TIMEOUT = 60000


def same(ctx, a, b):
    return a == b if ctx.symbolic else ctx.close(a, b, 1e-4)


def minimise(ctx, X, j, f, w, l1, l2, positive):
    """argmin over w[f] of 1/2 |x_j - X w|^2 + l2/2 |w|^2 + l1 |w|_1"""
    q = sum((r[f] * r[f] for r in X), ctx.const(0)) + l2
    c = ctx.const(0)
    for r in X:
        rest = r[j] - sum((r[g] * w[g] for g in range(len(w)) if g != f and g != j), ctx.const(0))
        c = c + r[f] * rest
    if bool(c > l1):
        return ctx.div(c - l1, q)
    if not positive and bool(c < -l1):
        return ctx.div(c + l1, q)
    return ctx.const(0)


def column(ctx, X, j, n, sweeps, l1, l2, positive):
    """all coefficient vectors reachable with the given number of sweeps"""
    others = [f for f in range(n) if f != j and any(not (isinstance(r[f], (int, float)) and r[f] == 0) for r in X)]
    out = []
    for orders in product(permutations(others), repeat=sweeps):
        w = [ctx.const(0)] * n
        for order in orders:
            for f in order:
                w[f] = minimise(ctx, X, j, f, w, l1, l2, positive)
        out.append(w)
    return out


def fit(ctx, rows, n, sweeps=1, alpha="sym", l1_ratio="sym", positive=True, threads=1, top_k=None, tol=0.0, effective=None, fmt="csr"):
    """rows: per user {item: value or 's'}"""
    from irspack.recommenders import SLIMRecommender

    nu = len(rows)
    D = [[(ctx.real(f"x{u}_{i}", lo="1/8", hi=8) if v == "s" else float(v)) if v else 0 for i, v in enumerate(r)]
         for u, r in enumerate(rows)]
    ii = [(u, i) for u in range(nu) for i in range(n) if rows[u][i]]
    cls = ctx.sps.csr_matrix if fmt == "csr" else ctx.sps.csc_matrix
    X = cls((ctx.asarray([D[u][i] for u, i in ii]), (np.array([u for u, _ in ii]), np.array([i for _, i in ii]))), shape=(nu, n))
    a = ctx.real("alpha", lo="1/16", hi=2) if alpha == "sym" else alpha
    r = ctx.real("l1_ratio", lo=0, hi=1) if l1_ratio == "sym" else l1_ratio
    if l1_ratio == "sym":
        ctx.assume(r < 1)
    rec = SLIMRecommender(X, alpha=a, l1_ratio=r, positive_only=positive, n_iter=sweeps, n_threads=threads, top_k=top_k, tol=tol).learn()
    W = ctx.dense(rec.W)
    ctx.check("shape", tuple(rec.W.shape) == (n, n))
    l1, l2 = nu * a * r, nu * a * (1 - r)
    Dc = [[ctx.const(v) if isinstance(v, (int, float)) else v for v in row] for row in D]
    for j in range(n):
        ctx.eq(f"diagonal {j}", W[j][j], 0)
        if positive:
            for f in range(n):
                ctx.le(f"non-negative {f},{j}", 0, W[f][j])
        cands = column(ctx, Dc, j, n, effective or sweeps, l1, l2, positive)
        if top_k is None:
            alts = [ctx.and_(*[same(ctx, W[f][j], w[f]) for f in range(n)]) for w in cands]
        else:
            alts = []
            for w in cands:
                nz = [f for f in range(n) if bool(w[f] != 0)]
                # the top_k largest coefficients (any choice among ties)
                conds = []
                kept = [f for f in range(n) if bool(W[f][j] != 0)]
                conds.append(len(kept) == min(top_k, len(nz)) and set(kept) <= set(nz))
                for f in kept:
                    conds.append(same(ctx, W[f][j], w[f]))
                    for g in nz:
                        if g not in kept:
                            conds.append(w[g] <= w[f] if ctx.symbolic else float(w[g]) <= float(w[f]) + 1e-4)
                alts.append(ctx.and_(*conds))
        ctx.check(f"column {j} minimises the loss coordinate-wise", ctx.or_(*alts))
    ctx.reach("fit")


def rejects(ctx):
    from irspack.recommenders import SLIMRecommender

    X = ctx.sparse("x", [[0, 1], [1]], 2, values=1.0)
    E = (ValueError, RuntimeError)
    pos = ctx.bool("positive")
    pos = bool(pos)
    kind = ctx.choice("kind", ["threads", "iter", "l2", "l1"])
    v = ctx.real("v")
    ctx.assume(v < 0)
    if kind == "threads":
        ctx.raises(kind, E, lambda: SLIMRecommender(X, n_threads=0, positive_only=pos).learn())
    elif kind == "iter":
        ctx.raises(kind, E, lambda: SLIMRecommender(X, n_iter=0, n_threads=1, positive_only=pos).learn())
    elif kind == "l2":
        ctx.raises(kind, E, lambda: SLIMRecommender(X, alpha=v, l1_ratio=0.0, n_threads=1, positive_only=pos).learn())
    else:
        ctx.raises(kind, E, lambda: SLIMRecommender(X, alpha=1.0, l1_ratio=v, n_threads=1, positive_only=pos).learn())


A3 = [[1, 1, 0], [0, 2, 1], [1, 0, 3]]
B3 = [[1, 1, 1], [0, 1, 2]]
M3 = [[1, 1, 0], [0, 1, 2], [2, 0, 1], [0, 3, 0]]
S3 = [[1, "s", -2], [0, 1, 2], [2, 0, 1]]
F5 = [[1, 0, 0, 2, 1], [0, 1, 0, 1, 0]]
_ORD = ([dict(rows=[["s", "s"], [1, 0]], n=2, l1_ratio=0.25, positive=p) for p in (True, False)]
        + [dict(rows=[["s", 1], [0, "s"]], n=2, alpha=0.5, l1_ratio=0.25, positive=p, threads=2, fmt="csc") for p in (True, False)]
        + [dict(rows=A3, n=3, l1_ratio=0.5)])
_FIX = ([dict(rows=F5, n=5, alpha=0.125, l1_ratio=0.25, threads=t, top_k=k) for t, k in ((1, None), (2, 2))]
        + [dict(rows=A3, n=3, l1_ratio=0.125, positive=p, threads=t) for p, t in ((True, 1), (False, 2))]
        + [dict(rows=A3, n=3, alpha=0.125, positive=p) for p in (True, False)]
        + [dict(rows=B3, n=3, positive=p, l1_ratio=0.5) for p in (True, False)]
        + [dict(rows=A3, n=3, alpha=0.1, l1_ratio=r, positive=p, sweeps=2) for r, p in ((0.0, False), (0.5, True))]
        + [dict(rows=B3, n=3, alpha=0.25, l1_ratio=0.5, sweeps=3, tol=1e9, effective=1)]
        + [dict(rows=[["s", 1, 0], [0, 1, "s"]], n=3, alpha=0.5, l1_ratio=0.25, positive=p) for p in (True, False)]
        + [dict(rows=A3, n=3, alpha="sym", l1_ratio=0.0, top_k=k) for k in (0, 1, 2)]
        + [dict(rows=B3, n=3, alpha="sym", l1_ratio=0.25, top_k=1, positive=True, threads=2)]
        + [dict(rows=M3, n=3, alpha="sym", l1_ratio=0.0, top_k=k, positive=False) for k in (0, 1, 2)]
        + [dict(rows=S3, n=3, alpha=0.125, l1_ratio=0.25, top_k=1, positive=False)]
        + [dict(rows=B3, n=3, alpha=0.125, l1_ratio=0.25, sweeps=3, positive=p) for p in (True, False)])
HARNESSES = [
    H("fit", fit, _FIX, [dict(rows=A3, n=3, positive=p) for p in (True, False)]
      + [dict(rows=F5, n=5, alpha="sym", l1_ratio=0.125, threads=2, positive=False)], tol=1e-4, fixed=["shuffle"]),
    H("fit_any_order", fit, _ORD, [dict(rows=A3, n=3, alpha=0.125, positive=False), dict(rows=B3, n=3, l1_ratio=0.25, positive=False)],
      tol=1e-4),
    H("rejects", rejects, [dict()]),
]
