"""Shared pieces of the iALS harnesses: model construction and the textbook equations."""
from fractions import Fraction

import numpy as np


def C(ctx, v):
    f = Fraction(v)
    return ctx.const(f) if ctx.symbolic else float(f)


def mat(ctx, name, rows, lo=-3, hi=3):
    """rows of numbers (strings 'a/b' allowed), 's' (an arbitrary value) or 'p' (arbitrary in [1/4, 2])"""
    return [[ctx.real(f"{name}{i}_{j}", lo=lo, hi=hi) if v == "s" else ctx.real(f"{name}{i}_{j}", lo="1/4", hi=2) if v == "p" else C(ctx, v) for j, v in enumerate(r)] for i, r in enumerate(rows)]


def values(ctx, name, rows, hi=8):
    """{(u, i): value} of the stored interactions: None = not stored, 's' = arbitrary positive"""
    return {(u, i): (ctx.real(f"{name}{u}_{i}", lo="1/8", hi=hi) if v == "s" else C(ctx, v))
            for u, r in enumerate(rows) for i, v in enumerate(r) if v is not None}


def sparse(ctx, ent, shape, fmt="csr"):
    ii = sorted(ent)
    cls = ctx.sps.csr_matrix if fmt == "csr" else ctx.sps.csc_matrix
    return cls((ctx.asarray([ent[k] for k in ii]), (np.array([u for u, _ in ii], dtype=np.int64), np.array([i for _, i in ii], dtype=np.int64))),
               shape=shape)


def num(ctx, name, v, lo="1/8", hi=1):
    return ctx.real(name, lo=lo, hi=hi) if v == "s" else C(ctx, v)


def arr(ctx, M, cols):
    a = ctx.asarray(M, (len(M), cols))
    return a if ctx.symbolic else np.asarray(a, dtype=np.float32)


def set_factors(ctx, rec, U, V, K):
    core = rec.trainer_as_ials.core_trainer
    core.user = arr(ctx, U, K)
    core.item = arr(ctx, V, K)


def lam(ctx, reg, alpha0, nu, n_other, nnz):
    return reg * ctx.pow(alpha0 * n_other + nnz, nu)


def system(ctx, row, other, alpha0, reg, nu, loss, prior=None):
    """(A, b) of the weighted ridge problem of one row; row: {other index: value}"""
    K = len(other[0])
    bias = alpha0 if loss == "ORIGINAL" else ctx.const(0)
    l = lam(ctx, reg, alpha0, nu, len(other), len(row))
    A = [[alpha0 * sum((v[k] * v[m] for v in other), ctx.const(0)) + sum((x * other[j][k] * other[j][m] for j, x in row.items()), ctx.const(0))
          + (l if k == m else 0) for m in range(K)] for k in range(K)]
    b = [sum(((x + bias) * other[j][k] for j, x in row.items()), ctx.const(0)) + (l * prior[k] if prior is not None else 0) for k in range(K)]
    return A, b


def residual(ctx, A, b, x):
    return [b[k] - sum((A[k][m] * x[m] for m in range(len(x))), ctx.const(0)) for k in range(len(b))]


def rowof(ent, u):
    return {i: v for (r, i), v in ent.items() if r == u}


def colof(ent, i):
    return {u: v for (u, c), v in ent.items() if c == i}


def block_descent(ctx, A, b, x, dim, iters):
    """sequential exact minimisation over consecutive blocks of `dim` (1 or 2) coordinates"""
    K = len(x)
    x = list(x)
    for _ in range(iters):
        for s in range(0, K, dim):
            B = list(range(s, min(s + dim, K)))
            rhs = [b[k] - sum((A[k][m] * x[m] for m in range(K) if m not in B), ctx.const(0)) for k in B]
            if len(B) == 1:
                x[s] = ctx.div(rhs[0], A[s][s])
            else:
                (p, q), (r, t) = (A[B[0]][B[0]], A[B[0]][B[1]]), (A[B[1]][B[0]], A[B[1]][B[1]])
                det = p * t - q * r
                x[B[0]], x[B[1]] = ctx.div(rhs[0] * t - q * rhs[1], det), ctx.div(p * rhs[1] - r * rhs[0], det)
    return x


def features(ctx, F, as_sparse):
    """a feature matrix (dense, or sparse with every entry stored)"""
    n, m = len(F), len(F[0]) if F else 0
    if as_sparse:
        return sparse(ctx, {(i, j): F[i][j] for i in range(n) for j in range(m)}, (n, m))
    return ctx.asarray(F, (n, m))
