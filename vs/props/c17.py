from . import ialsref as R
from ..ctx import H

ID = "C17"
MODULES = ["_ials_core", "_util_cpp"]
FUNCTIONS = ["irspack.recommenders.IALSRecommender (learn, compute_user_embedding, compute_item_embedding)", "IALSTrainer.run_epoch / transform_*",
             "als/IALSTrainer.hpp Solver::prepare_p, step_cg, step_cholesky, step_ialspp, step_icd, BatchedRankUpdater, X_to_vector (compiled from source)"]
BOUNDS = ("1..3 latent dimensions, up to 3 users x 3 items with arbitrary positive interaction values / alpha0 / reg (fixed factor "
          "entries in most cases, arbitrary ones in the one-dimensional ones), plus rows of 18 and 66 interactions crossing the 16- and "
          "64-row work blocks; 1..2 threads in every schedule with <= 2 scheduling delays; exact reals")
ALGEBRA = True


def one(ctx, label, solver, A, b, x0, x, cg=0, dim=1, iters=1, empty=False):
    K = len(x)
    if empty:
        for k in range(K):
            ctx.eq(f"{label}: row without interactions is zero [{k}]", x[k], 0)
        return
    if solver == "CHOLESKY" or (solver == "IALSPP" and dim >= K):
        for k, r in enumerate(R.residual(ctx, A, b, x)):
            ctx.eq(f"{label}: optimality [{k}]", r, 0)
    elif solver == "CG" and (cg == 0 or cg >= K):
        r = R.residual(ctx, A, b, x)
        ctx.le(f"{label}: optimality", sum((v * v for v in r), ctx.const(0)), 1e-18 if ctx.symbolic else 1e-6)
    elif solver == "CG":
        # one step: minimise along the negative gradient
        r0, r1 = R.residual(ctx, A, b, x0), R.residual(ctx, A, b, x)
        d = [x[k] - x0[k] for k in range(K)]
        for k in range(K):
            for m in range(k):
                ctx.eq(f"{label}: moves along the gradient [{m},{k}]", d[k] * r0[m], d[m] * r0[k])
        g = sum((r0[k] * r1[k] for k in range(K)), ctx.const(0))
        n0 = sum((v * v for v in r0), ctx.const(0))
        ctx.le(f"{label}: minimal along the gradient +", g, 1e-18 if ctx.symbolic else 1e-5 * (1 + n0))
        ctx.le(f"{label}: minimal along the gradient -", -g, 1e-18 if ctx.symbolic else 1e-5 * (1 + n0))
    else:
        want = R.block_descent(ctx, A, b, x0, dim, iters)
        for k in range(K):
            ctx.eq(f"{label}: coordinate descent [{k}]", x[k], want[k])


def rejects(ctx):
    from irspack.recommenders import IALSRecommender

    E = (ValueError, RuntimeError)
    X = ctx.sparse("x", [[0, 1], [1]], 2, values=1.0)
    kind = ctx.choice("kind", ["threads", "threads cold", "user shape", "item shape"])
    mk = lambda t: IALSRecommender(X, n_components=2, alpha0=0.5, n_threads=t, train_epochs=1, init_std=0.0)
    if kind == "threads":
        ctx.raises(kind, E, lambda: mk(0).learn())
    elif kind == "threads cold":
        ctx.raises(kind, E, lambda: IALSRecommender(X, n_components=2, n_threads=0, train_epochs=0, init_std=0.0).learn().compute_user_embedding(X))
    elif kind == "user shape":
        n = ctx.choice("n", [1, 3, 4])
        bad = ctx.sparse("y", [[0], []], n, values=1.0)
        ctx.raises(kind, E, lambda: mk(1).learn().compute_user_embedding(bad))
    else:
        n = ctx.choice("n", [1, 3, 4])
        bad = ctx.sparse("y", [[0]] + [[]] * (n - 1), 2, values=1.0)
        ctx.raises(kind, E, lambda: mk(1).learn().compute_item_embedding(bad))


def make(ctx, X, V, U, K, alpha0, reg, nu, loss, solver, cg, dim, threads, pcg=0, piter=1, **kw):
    from irspack.recommenders import IALSRecommender

    rec = IALSRecommender(X, n_components=K, alpha0=alpha0, reg=reg, nu=nu, init_std=0.0, solver_type=solver, max_cg_steps=cg,
                          ialspp_subspace_dimension=dim, loss_type=loss, n_threads=threads, train_epochs=0,
                          prediction_time_max_cg_steps=pcg, prediction_time_ialspp_iteration=piter, **kw).learn().learn()  # learning again starts afresh
    R.set_factors(ctx, rec, U, V, K)
    return rec


def scaled(eps):
    return {} if eps is None else {"confidence_scaling": "log", "epsilon": eps}


def rescale(ctx, ent, eps):
    """confidence of an interaction: x, or log(1 + x / epsilon)"""
    return ent if eps is None else {k: ctx.log(1 + ctx.div(v, eps)) for k, v in ent.items()}


def epoch(ctx, rows, U, V, solver, alpha0="s", reg="s", nu=1.0, loss="IALSPP", cg=0, dim=1, threads=1, fmt="csr", items=True,
          nu_star=None, eps=None):
    K = len(V[0])
    nu_, ni = len(rows), len(rows[0])
    ent = R.values(ctx, "x", rows)
    a, g = R.num(ctx, "alpha0", alpha0), R.num(ctx, "reg", reg)
    U0, V0 = R.mat(ctx, "u", U), R.mat(ctx, "v", V)
    rec = make(ctx, R.sparse(ctx, ent, (nu_, ni), fmt), V0, U0, K, a, g, nu, loss, solver, cg, dim, threads, **scaled(eps),
               **({} if nu_star is None else {"nu_star": nu_star}))
    ent = rescale(ctx, ent, eps)
    if nu_star is not None:
        scale = lambda n: (sum((ctx.pow(a * ni + len(R.rowof(ent, u)), n) for u in range(nu_)), ctx.const(0))
                           + sum((ctx.pow(a * nu_ + len(R.colof(ent, i)), n) for i in range(ni)), ctx.const(0)))
        g = ctx.div(g * scale(nu_star), scale(nu))
    rec.trainer_as_ials.run_epoch()
    U1, V1 = ctx.dense(rec.get_user_embedding()), ctx.dense(rec.get_item_embedding())
    ctx.check("shapes", (len(U1), len(V1)) == (nu_, ni) and all(len(r) == K for r in U1 + V1))
    for u in range(nu_):
        row = R.rowof(ent, u)
        A, b = R.system(ctx, row, V0, a, g, nu, loss)
        one(ctx, f"user {u}", solver, A, b, U0[u], U1[u], cg, dim, empty=not row)
    if items:
        for i in range(ni):
            col = R.colof(ent, i)
            A, b = R.system(ctx, col, U1, a, g, nu, loss)
            one(ctx, f"item {i}", solver, A, b, V0[i], V1[i], cg, dim, empty=not col)
    ctx.reach("epoch")


def transform(ctx, side, rows, F, solver, alpha0="s", reg="s", nu=1.0, loss="IALSPP", cg=0, dim=1, iters=1, threads=1, fmt="csr", eps=None):
    """cold rows (users) or columns (items) against fixed factors F of the other side"""
    K = len(F[0])
    ent = R.values(ctx, "x", rows)
    a, g = R.num(ctx, "alpha0", alpha0), R.num(ctx, "reg", reg)
    F0 = R.mat(ctx, "f", F)
    X = R.sparse(ctx, ent, (len(rows), len(rows[0])), fmt)
    one_ = ctx.const(1)
    if side == "user":
        n = len(rows[0])
        train = R.sparse(ctx, {(0, 0): one_}, (1, n))
        rec = make(ctx, train, F0, [[ctx.const(0)] * K], K, a, g, nu, loss, solver, 1, dim, threads, cg, iters, **scaled(eps))
        got = ctx.dense(rec.compute_user_embedding(X))
        lines = [R.rowof(ent, u) for u in range(len(rows))]
    else:
        train = R.sparse(ctx, {(0, 0): one_}, (len(rows), 1))
        rec = make(ctx, train, [[ctx.const(0)] * K], F0, K, a, g, nu, loss, solver, 1, dim, threads, cg, iters, **scaled(eps))
        got = ctx.dense(rec.compute_item_embedding(X))
        lines = [R.colof(ent, i) for i in range(len(rows[0]))]
    lines = [rescale(ctx, line, eps) for line in lines]
    ctx.check("shape", len(got) == len(lines) and all(len(r) == K for r in got))
    zero = [ctx.const(0)] * K
    for r, line in enumerate(lines):
        A, b = R.system(ctx, line, F0, a, g, nu, loss)
        one(ctx, f"{side} {r}", solver, A, b, zero, got[r], cg, dim, iters, empty=not line)
    ctx.reach("transform")


def definite(ctx, side, solver, threads=1):
    """an interaction value may be negative: the equations are solved, or refused when they have no minimum"""
    K, a, g = 1, R.C(ctx, "1/4"), R.C(ctx, "1/2")
    F0 = R.mat(ctx, "f", [["1/2"], [1]])
    x = ctx.real("x", lo=-16, hi=16)
    ctx.assume(x != 0)
    one_ = ctx.const(1)
    ent = {(0, 0): x, (1, 1): one_} if threads > 1 else {(0, 0): x}
    n = max(k[0] for k in ent) + 1
    zero = [[ctx.const(0)] * K]
    if side == "user":
        rec = make(ctx, R.sparse(ctx, {(0, 0): one_}, (1, 2)), F0, zero, K, a, g, 1.0, "IALSPP", solver, 1, 1, threads)
        f = lambda: rec.compute_user_embedding(R.sparse(ctx, ent, (n, 2)))
    else:
        rec = make(ctx, R.sparse(ctx, {(0, 0): one_}, (2, 1)), zero, F0, K, a, g, 1.0, "IALSPP", solver, 1, 1, threads)
        f = lambda: rec.compute_item_embedding(R.sparse(ctx, {(j, i): v for (i, j), v in ent.items()}, (2, n)))
    A, b = R.system(ctx, R.rowof(ent, 0), F0, a, g, 1.0, "IALSPP")
    d = A[0][0]
    eps = R.C(ctx, "1/8")
    if bool(d > eps):
        got, err = ctx.call(f, ValueError, RuntimeError)
        ctx.check("positive values are always accepted", err is None or bool(x < 0))
        if err is None:
            ctx.eq("solution", ctx.dense(got)[0][0] * d, b[0])
            ctx.reach("solved")
    else:
        ctx.assume(d < -eps)
        ctx.raises("no minimum is an error", (ValueError, RuntimeError), f)
        ctx.reach("refused")


N = None
XS = [["s", N, "s"], [N, "s", N], [N, N, N]]       # arbitrary interaction values, a user without any
X1 = [["s", N, 2], [N, "1/2", N], [N, N, N]]
XN = [["3/2", N, 2], [N, "1/2", 1], [N, N, N]]
XR = [["3/2", N, 2], [N, "1/2", 1]]                # more items than users
XR1 = [["s", N, 2], [N, "1/2", 1]]
F1 = [["1/2"], ["-3/4"], [1]]
F1S = [["s"], ["s"], ["s"]]
F2 = [["1/2", "1/4"], ["-3/4", 1], [1, "-1/2"]]
F2S = [["s", "1/4"], ["-3/4", 1], [1, "-1/2"]]
F2P = [["p", "1/4"], ["-3/4", 1], [1, "-1/2"]]
F3 = [["1/2", "1/4", 1], ["-3/4", 1, "1/2"], [1, "-1/2", "-1/4"]]
SOLVERS = [dict(solver="CHOLESKY"), dict(solver="CG", cg=0), dict(solver="IALSPP", dim=1), dict(solver="IALSPP", dim=2)]
LOSS = ("IALSPP", "ORIGINAL")
X16 = [["s"] + [1 if j % 3 else N for j in range(17)], [N] * 16 + ["1/2", "s"]]
F16 = [[f"{(5 * j) % 7 - 3}/4"] for j in range(18)]
F16B = [[f"{(5 * j) % 7 - 3}/4", f"{(3 * j) % 5 - 2}/4"] for j in range(18)]
X66 = [["s"] + [1 + (j % 3) for j in range(65)]]
X66B = [[1 + (j % 3) for j in range(63)] + ["s", 1, 1]]
X66C = [[1] * 64 + ["s", 2]]
F66 = [[f"{(5 * j) % 7 - 3}/8", f"{(3 * j) % 5 - 2}/8"] for j in range(66)]
HARNESSES = [
    H("epoch", epoch,
      [dict(rows=X1, U=F1, V=F1, loss=l, alpha0="1/4", reg="1/2", **s) for s in SOLVERS for l in LOSS]
      + [dict(rows=XN, U=F1, V=F1, loss="ORIGINAL", alpha0="s", reg="1/2", **s) for s in SOLVERS]
      + [dict(rows=XN, U=F2, V=F2, loss=l, alpha0="1/4", reg="1/2", **s) for s in SOLVERS for l in LOSS]
      + [dict(rows=XN, U=F3, V=F3, loss="ORIGINAL", alpha0="1/4", reg="1/2", solver="IALSPP", dim=d) for d in (1, 2, 3)]
      + [dict(rows=XN, U=F2, V=F2, loss=l, alpha0="1/4", reg="1/2", nu=1.5, solver="CG", cg=1, items=False) for l in LOSS]
      + [dict(rows=XN, U=F1, V=F1, nu=n, alpha0="1/4", reg="1/2", fmt="csc", threads=2, **s) for n, s in zip((0.0, 2.0, 0.5, 1.5), SOLVERS)]
      + [dict(rows=XN, U=F2, V=F2, alpha0="1/4", reg="1/2", threads=2, **s) for s in SOLVERS]
      + [dict(rows=X1, U=F1, V=F1, alpha0="1/4", reg="1/2", nu=n, nu_star=m, solver="CHOLESKY") for n, m in ((0.0, 1.0), (1.0, 2.0), (2.0, 0.0))]
      + [dict(rows=XR1, U=F1[:2], V=F1, alpha0="1/4", reg="1/2", nu=n, nu_star=m, solver="CHOLESKY", items=False) for n, m in ((1.0, 2.0), (2.0, 1.0))]
      + [dict(rows=XR, U=F1[:2], V=F1, alpha0="s", reg="1/2", loss="ORIGINAL", **s) for s in SOLVERS[:2]]
      + [dict(rows=XR, U=F2[:2], V=F2, alpha0="1/4", reg="1/2", nu=n, **s) for n, s in zip((1.0, 2.0, 2.0, 1.0), SOLVERS)]
      + [dict(rows=XN, U=F1, V=F1, alpha0="s", reg="1/2", nu=0.0, nu_star=1.0, solver="IALSPP", items=False)]
      + [dict(rows=X1, U=F1, V=F1, alpha0="1/4", reg="1/2", eps=e, solver=s, items=False) for e, s in ((0.5, "CHOLESKY"), (2.0, "IALSPP"))],
      [dict(rows=X1, U=F2, V=F2, loss=l, alpha0="1/4", reg="1/2", **s) for s in SOLVERS for l in LOSS]
      + [dict(rows=X1, U=F1, V=F1, alpha0="1/4", reg="1/2", eps=0.5, **s) for s in SOLVERS]
      + [dict(rows=XN, U=F2, V=F2, alpha0="1/4", reg="1/2", threads=3, **s) for s in SOLVERS], tol=2e-3),
    H("transform", transform,
      [dict(side=sd, rows=XS, F=F2, loss=l, reg="1/2", alpha0="1/4", **s) for sd in ("user", "item") for s in SOLVERS for l in LOSS]
      + [dict(side=sd, rows=XN, F=F2, loss="ORIGINAL", **s) for sd in ("user", "item") for s in SOLVERS]
      + [dict(side=sd, rows=XN, F=F2P if s["solver"] == "CG" else F2S, loss="ORIGINAL", alpha0="1/4", reg="1/2", **s)
         for sd in ("user", "item") for s in SOLVERS]
      + [dict(side="user", rows=X16, F=F16, alpha0="1/4", reg="1/2", **s) for s in SOLVERS]
      + [dict(side="user", rows=X16, F=F16B, alpha0="1/4", reg="1/2", **s) for s in SOLVERS]
      + [dict(side="user", rows=x, F=F66, alpha0="1/4", reg="1/2", **s) for x in (X66, X66B) for s in SOLVERS]
      + [dict(side="user", rows=X66C, F=F66, alpha0="1/4", reg="1/2", **SOLVERS[0])]
      + [dict(side=sd, rows=XN, F=F2, loss="ORIGINAL", alpha0="s", reg="1/2", nu=n, solver="CG", cg=1) for sd in ("user", "item") for n in (0.5, 2.0)]
      + [dict(side=sd, rows=X1 if d == 1 else XN, F=F3, loss=l, alpha0="1/4", reg="1/2", solver="IALSPP", dim=d, iters=i)
         for sd, d, i, l in (("user", 1, 2, "ORIGINAL"), ("item", 1, 3, "IALSPP"), ("user", 2, 2, "IALSPP"), ("item", 2, 3, "ORIGINAL"), ("user", 3, 2, "ORIGINAL"))]
      + [dict(side=sd, rows=XN, F=F2, alpha0="1/4", reg="1/2", threads=2, fmt="csc", **s) for sd in ("user", "item") for s in SOLVERS]
      + [dict(side=sd, rows=XN, F=F2, alpha0=0, reg="s", nu=1.0, **s) for sd in ("user", "item") for s in SOLVERS]
      + [dict(side=sd, rows=X1, F=F2, alpha0="1/4", reg="1/2", eps=e, **s) for sd, e in (("user", 0.5), ("item", 2.0)) for s in (SOLVERS[0], SOLVERS[2])],
      [dict(side="user", rows=X16, F=F16B, alpha0="1/4", reg="1/2", threads=2, **s) for s in SOLVERS]
      + [dict(side="user", rows=XS, F=F2, **s) for s in SOLVERS], tol=2e-3),
    H("definite", definite, [dict(side=sd, solver=s, threads=t) for sd in ("user", "item") for s, t in (("CG", 1), ("CHOLESKY", 1), ("CG", 2), ("CHOLESKY", 2))]),
    H("rejects", rejects, [dict()]),
]
