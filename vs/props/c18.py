import numpy as np

from . import ialsref as R
from ..ctx import H

ID = "C18"
MODULES = ["_ials_core", "_util_cpp"]
ALGEBRA = True
FUNCTIONS = ["IALSTrainer.compute_loss (irspack.recommenders.ials)", "als/IALSTrainer.hpp IALSTrainer::compute_loss, Solver::prepare_p, compute_reg, "
             "feature_times_weight (compiled from source)"]
BOUNDS = ("1..2 latent dimensions, up to 3 users x 3 items (plus 18 items crossing the 16-row work block), every factor, interaction value, "
          "alpha0, reg, feature entry / weight / penalty arbitrary; 1..2 threads in every schedule with <= 2 scheduling delays; exact reals")


def loss(ctx, rows, U, V, alpha0="s", reg="s", nu=1.0, kind="IALSPP", threads=1, uf=None, vf=None, wu=None, wv=None, sparse=False, eps=None,
         before=0):
    from irspack.recommenders import IALSRecommender

    K, nu_, ni = len(V[0]), len(rows), len(rows[0])
    ent = R.values(ctx, "x", rows)
    a, g = R.num(ctx, "alpha0", alpha0), R.num(ctx, "reg", reg)
    U0, V0 = R.mat(ctx, "u", U), R.mat(ctx, "v", V)
    kw = {}
    feats = {}
    for side, f, w in (("user", uf, wu), ("item", vf, wv)):
        if f is None:
            continue
        F = R.mat(ctx, side + "f", f)
        lam = R.num(ctx, "lambda_" + side, "s")
        W = R.mat(ctx, side + "w", w)
        kw[side + "_features"] = R.features(ctx, F, sparse)
        kw[f"lambda_{side}_feature"] = lam
        feats[side] = (F, W, lam)
    if eps is not None:
        kw.update(confidence_scaling="log", epsilon=eps)
    rec = IALSRecommender(R.sparse(ctx, ent, (nu_, ni)), n_components=K, alpha0=a, reg=g, nu=nu, init_std=0.0, loss_type=kind,
                          n_threads=threads, train_epochs=0, **kw).learn()
    core = rec.trainer_as_ials.core_trainer
    R.set_factors(ctx, rec, U0, V0, K)
    if "user" in feats:
        core.user_feature_weight = R.arr(ctx, feats["user"][1], K)
    if "item" in feats:
        core.item_feature_weight = R.arr(ctx, feats["item"][1], K)
    got = rec.trainer_as_ials.compute_loss()
    if eps is not None:
        ent = {k: ctx.log(1 + ctx.div(v, eps)) for k, v in ent.items()}
    dot = lambda p, q: sum((x * y for x, y in zip(p, q)), ctx.const(0))
    want = ctx.const(0)
    for u in range(nu_):
        for i in range(ni):
            s = dot(U0[u], V0[i])
            if kind == "IALSPP":
                want = want + a * s * s
                if (u, i) in ent:
                    want = want + ent[u, i] * (s - 1) * (s - 1)
            elif (u, i) in ent:
                want = want + (a + ent[u, i]) * (s - 1) * (s - 1)
            else:
                want = want + a * s * s
    for side, M, n_other, line in (("user", U0, ni, R.rowof), ("item", V0, nu_, R.colof)):
        for r, vec in enumerate(M):
            w = R.lam(ctx, g, a, nu, n_other, len(line(ent, r)))
            if side in feats:
                F, W, _ = feats[side]
                vec = [vec[k] - sum((F[r][f] * W[f][k] for f in range(len(W))), ctx.const(0)) for k in range(K)]
            want = want + w * dot(vec, vec)
        if side in feats:
            want = want + feats[side][2] * sum((dot(r, r) for r in feats[side][1]), ctx.const(0))
    ctx.eq("loss", got * 2, want)
    ctx.reach("loss")


N = None
S1 = [["s"], ["s"], ["s"]]
S2 = [["s", "s"], ["s", "s"]]
XS = [["s", N, "s"], [N, "s", N], [N, N, N]]
XT = [["s", N], ["s", "s"]]
B2 = [["s", "1/2"], ["-3/4", 1], [1, "-1/2"]]
LONG = [["s"] + [1 if j % 3 else N for j in range(17)], [N] * 16 + ["1/2", "s"]]
FL = [[f"{(5 * j) % 7 - 3}/4"] for j in range(17)] + [["s"]]
KINDS = ("IALSPP", "ORIGINAL")
ONE = [["1/2", 2], [N, 1]]
FIX = [["1/2"], ["-3/4"]]
HARNESSES = [
    H("loss", loss,
      [dict(rows=XS, U=S1, V=S1, kind=k, nu=n) for k in KINDS for n in (1.0, 0.0, 2.0)]
      + [dict(rows=XT, U=S2, V=S2, kind=k) for k in KINDS]
      + [dict(rows=XS, U=B2, V=B2, kind=k, nu=1.5, alpha0="1/4") for k in KINDS]
      + [dict(rows=XT, U=S2, V=S2, kind=k, alpha0=0) for k in KINDS]
      + [dict(rows=LONG, U=FL[:2], V=FL, kind=k, alpha0="1/4", reg="1/2") for k in KINDS]
      + [dict(rows=r, U=S1[:len(r)], V=S1[:len(r[0])], kind=k, nu=n) for r in (XS[:2], [["s", N], [N, "s"], ["s", N]]) for k in KINDS for n in (1.0, 2.0)]
      + [dict(rows=ONE, U=FIX, V=FIX, kind=k, threads=2) for k in KINDS]
      + [dict(rows=XT, U=S1[:2], V=S1[:2], uf=f, wu=w, kind=k, sparse=sp) for k, sp in zip(KINDS, (False, True))
         for f, w in ((S1[:2], S1[:1]), (S2, [["s"], ["s"]]))]
      + [dict(rows=[["s", N, 1], ["s", "s", N]], U=S1[:2], V=S1, vf=[["s"] * len(f[0])] * 3, wv=w, kind=k, sparse=sp) for k, sp in zip(KINDS, (True, False))
         for f, w in ((S1[:2], S1[:1]), (S2, [["s"], ["s"]]))]
      + [dict(rows=XT, U=S2, V=S2, uf=S1[:2], wu=[["s", "s"]], vf=S1[:2], wv=[["s", "s"]], kind=k, nu=n, sparse=sp)
         for k, n, sp in (("IALSPP", 1.0, False), ("ORIGINAL", 0.0, True))]
      + [dict(rows=XT, U=S1[:2], V=S1[:2], kind=k, eps=0.5) for k in KINDS]
      + [dict(rows=[[N, N], [N, N]], U=S2, V=S2, kind=k) for k in KINDS],
      [dict(rows=XS, U=[["s", "s"]] * 3, V=[["s", "s"]] * 3, kind=k, nu=n) for k in KINDS for n in (1.0, 2.0)]
      + [dict(rows=LONG, U=FL[:2], V=FL, kind=k, alpha0="1/4", reg="1/2", threads=2) for k in KINDS]
      + [dict(rows=XS, U=B2, V=B2, kind=k, threads=2, alpha0="1/4") for k in KINDS], tol=2e-3),
]
