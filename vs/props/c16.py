import numpy as np

from ..ctx import H

ID = "C16"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.recommenders.DenseSLIMRecommender", "irspack.recommenders.EDLAERecommender"]
BOUNDS = ("2 or 3 items, up to 3 users, symbolic interaction values / regularisation / dropout probability; matrix inversion is the "
          "exact adjugate formula (LAPACK trusted), exact reals (float32 rounding outside)")
CHECK_TIMEOUT = 60000


def fit(ctx, kind, rows, reg="sym", p="sym", fmt="csr"):
    from irspack.recommenders import DenseSLIMRecommender, EDLAERecommender

    nu, n = len(rows), len(rows[0])
    D = [[ctx.real(f"x{u}_{i}", lo=-4, hi=4) if v == "s" else ctx.const(v) for i, v in enumerate(r)] for u, r in enumerate(rows)]
    ii = [(u, i) for u in range(nu) for i in range(n) if rows[u][i]]
    cls = ctx.sps.csr_matrix if fmt == "csr" else ctx.sps.csc_matrix
    X = cls((ctx.asarray([D[u][i] for u, i in ii]), (np.array([u for u, _ in ii]), np.array([i for _, i in ii]))), shape=(nu, n))
    lam = ctx.real("reg", lo="1/4", hi=8) if reg == "sym" else ctx.const(reg)
    if kind == "ease":
        rec = DenseSLIMRecommender(X, reg=lam).learn()
    else:
        pr = ctx.real("p", lo=0, hi="7/8") if p == "sym" else ctx.const(p)
        rec = EDLAERecommender(X, reg=lam, dropout_p=pr).learn()
    W = ctx.dense(rec.W)
    ctx.check("shape", tuple(rec.W.shape) == (n, n))
    G = [[sum((D[u][i] * D[u][j] for u in range(nu)), ctx.const(0)) for j in range(n)] for i in range(n)]
    pen = [lam] * n if kind == "ease" else [lam + ctx.div(pr, 1 - pr) * G[i][i] for i in range(n)]
    for j in range(n):
        ctx.eq(f"diagonal {j}", W[j][j], 0)
        for i in range(n):
            if i != j:
                # d/dW_ij of 1/2 |X - XW|^2 + 1/2 |pen^(1/2) W|^2 with diag(W) = 0
                lhs = sum((G[i][k] * W[k][j] for k in range(n) if k != j), ctx.const(0)) + pen[i] * W[i][j]
                ctx.eq(f"stationary {i},{j}", lhs, G[i][j])
    ctx.reach("fit")


A = [["s", 1], [1, "s"]]
HARNESSES = [H("fit", fit,
               [dict(kind=k, rows=A) for k in ("ease", "edlae")]
               + [dict(kind=k, rows=[["s", "s"], [0, "s"]], reg=r, p=0.25) for k, r in (("ease", "sym"), ("edlae", 1.0))]
               + [dict(kind=k, rows=[[1, 0, 2], [1, 1, 0], [0, 3, 1]], fmt="csc", reg=r, p=p)
                  for k, r, p in (("ease", "sym", 0), ("edlae", "sym", 0.25), ("edlae", 1.0, "sym"))]
               + [dict(kind=k, rows=[["s", 1, 0], [0, 1, 1]], reg=2.0, p=0.5) for k in ("ease", "edlae")],
               [dict(kind=k, rows=[["s", "s", 0], [1, "s", 1]], p=0.5) for k in ("ease", "edlae")], tol=2e-3)]
