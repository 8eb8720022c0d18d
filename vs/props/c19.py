import numpy as np

from . import ialsref as R
from .c17 import one
from ..ctx import H

ID = "C19"
MODULES = ["_ials_core", "_util_cpp"]
ALGEBRA = True
FUNCTIONS = ["irspack.recommenders.IALSRecommender with user_features / item_features (learn, compute_*_embedding[_from_features], "
             "get_score_cold_user[_from_features], get_score_from_item_features, get_score_cold_user_with_item_features)",
             "als/IALSTrainer.hpp IALSTrainer::step, transform_*_with_feature, transform_*_feature, step_with_prior, step_cg (prior), "
             "step_cholesky_with_prior, initialize_feature_weight_cache, solve_feature_weight (compiled from source)"]
BOUNDS = ("1..2 latent dimensions (3 with one feature), 1..2 features, up to 3 users x 2 items; arbitrary interaction values / feature entries / feature weights / "
          "alpha0 / reg / lambda one group at a time (the others fixed rationals); 1..2 epochs with warm-up 0..2; 1..2 threads in every schedule "
          "with <= 2 scheduling delays; exact reals")


def build(ctx, X, K, a, g, nu, loss, solver, uf=None, vf=None, lu=None, lv=None, sparse=False, threads=1, warm=0, cg=0, pcg=0, **kw):
    from irspack.recommenders import IALSRecommender

    if uf is not None:
        kw.update(user_features=R.features(ctx, uf, sparse), lambda_user_feature=lu)
    if vf is not None:
        kw.update(item_features=R.features(ctx, vf, sparse), lambda_item_feature=lv)
    return IALSRecommender(X, n_components=K, alpha0=a, reg=g, nu=nu, init_std=0.0, solver_type=solver, max_cg_steps=cg, loss_type=loss,
                           n_threads=threads, train_epochs=0, prediction_time_max_cg_steps=pcg, feature_warmup_epochs=warm, **kw).learn()


def prior_of(ctx, F, W, K):
    return [[sum((f[m] * W[m][k] for m in range(len(W))), ctx.const(0)) for k in range(K)] for f in F]


def ridge(ctx, label, F, W, fac, lams, lam, K):
    """(F' L F + lam I) W = F' L fac"""
    m = len(W)
    for p in range(m):
        for k in range(K):
            lhs = lam * W[p][k]
            for r, f in enumerate(F):
                pred = sum((f[q] * W[q][k] for q in range(m)), ctx.const(0))
                lhs = lhs + lams[r] * f[p] * (pred - fac[r][k])
            ctx.eq(f"{label}: feature weight optimality [{p},{k}]", lhs, 0)


def epoch(ctx, rows, U, V, solver="CHOLESKY", uf=None, vf=None, wu=None, wv=None, alpha0="1/4", reg="1/2", lam="1/2", nu=1.0, loss="IALSPP",
          sparse=False, threads=1, warm=0, epochs=1, items=True, cg=0):
    K, nu_, ni = len(V[0]), len(rows), len(rows[0])
    ent = R.values(ctx, "x", rows)
    a, g = R.num(ctx, "alpha0", alpha0), R.num(ctx, "reg", reg)
    lu, lv = R.num(ctx, "lambda_u", lam), R.num(ctx, "lambda_v", lam)
    if lam != "s":
        lv = lv + 1
    U0, V0 = R.mat(ctx, "u", U), R.mat(ctx, "v", V)
    uF = None if uf is None else R.mat(ctx, "fu", uf)
    vF = None if vf is None else R.mat(ctx, "fv", vf)
    rec = build(ctx, R.sparse(ctx, ent, (nu_, ni)), K, a, g, nu, loss, solver, uF, vF, lu, lv, sparse, threads, warm, cg)
    core = rec.trainer_as_ials.core_trainer
    R.set_factors(ctx, rec, U0, V0, K)
    W = {}
    for side, F, w in (("user", uF, wu), ("item", vF, wv)):
        if F is None:
            continue
        ctx.all_eq(f"{side} feature weights start at zero", ctx.dense(getattr(core, side + "_feature_weight")), [[0] * K] * len(F[0]))
        if w is not None:
            W[side] = R.mat(ctx, "w" + side, w)
            setattr(core, side + "_feature_weight", R.arr(ctx, W[side], K))
        else:
            W[side] = [[ctx.const(0)] * K for _ in F[0]]
    for e in range(epochs):
        rec.trainer_as_ials.run_epoch()
        last = e == epochs - 1
        for side, M0, n, other_n, F, lm in (("user", U0, nu_, ni, uF, lu), ("item", V0, ni, nu_, vF, lv)):
            other = V0 if side == "user" else U0  # U0 already replaced by the new users below
            new = ctx.dense(rec.get_user_embedding() if side == "user" else rec.get_item_embedding())
            aware = F is not None and e >= warm
            pr = prior_of(ctx, F, W[side], K) if aware else None
            lines = [(R.rowof if side == "user" else R.colof)(ent, r) for r in range(n)]
            if side == "user" or items:
                for r in range(n):
                    A, b = R.system(ctx, lines[r], other, a, g, nu, loss, prior=pr[r] if aware else None)
                    one(ctx, f"epoch {e} {side} {r}", solver, A, b, M0[r], new[r], cg, empty=not aware and not lines[r])
                if F is not None:
                    got = ctx.dense(getattr(core, side + "_feature_weight"))
                    if aware:
                        ridge(ctx, f"epoch {e} {side}", F, got, new, [R.lam(ctx, g, a, nu, other_n, len(l)) for l in lines], lm, K)
                    else:
                        ctx.all_eq(f"epoch {e}: {side} feature weights untouched during warm-up", got, W[side])
                    W[side] = got
            if side == "user":
                U0 = new
            else:
                V0 = new
    ctx.reach("epoch")


def cold(ctx, side, rows, F, feats, w, solver="CHOLESKY", alpha0="1/4", reg="1/2", nu=1.0, loss="IALSPP", sparse=False, threads=1, only=False,
         cg=0, eps=None):
    """cold rows of `side` with a feature prior; F: factors of the other side; only: no interaction history"""
    K, n = len(F[0]), len(F)
    ent = R.values(ctx, "x", rows)
    a, g = R.num(ctx, "alpha0", alpha0), R.num(ctx, "reg", reg)
    F0, W, cf = R.mat(ctx, "f", F), R.mat(ctx, "w", w), R.mat(ctx, "c", feats)
    one_ = ctx.const(1)
    shape = (1, n) if side == "user" else (n, 1)
    kw = {"uf" if side == "user" else "vf": [[one_] * len(w)], "lu" if side == "user" else "lv": one_, "sparse": sparse}
    if eps is not None:
        kw.update(confidence_scaling="log", epsilon=eps)
    rec = build(ctx, R.sparse(ctx, {(0, 0): one_}, shape), K, a, g, nu, loss, solver, threads=threads, cg=1, pcg=cg, **kw)
    known = R.mat(ctx, "k", [["1/2", "-1/4"][:K]])
    core = rec.trainer_as_ials.core_trainer
    if side == "user":
        R.set_factors(ctx, rec, known, F0, K)
        core.user_feature_weight = R.arr(ctx, W, K)
    else:
        R.set_factors(ctx, rec, F0, known, K)
        core.item_feature_weight = R.arr(ctx, W, K)
    fm = R.features(ctx, cf, sparse)
    nrow = len(feats)
    if only:
        ent = {}
        got = ctx.dense(getattr(rec, f"compute_{side}_embedding_from_features")(fm))
    else:
        X = R.sparse(ctx, ent, (nrow, n) if side == "user" else (n, nrow))
        got = ctx.dense(getattr(rec, f"compute_{side}_embedding")(X, **{side + "_features": fm}))
    ctx.check("shape", len(got) == nrow and all(len(r) == K for r in got))
    if eps is not None:
        ent = {k: ctx.log(1 + ctx.div(v, eps)) for k, v in ent.items()}
    pr = prior_of(ctx, cf, W, K)
    for r in range(nrow):
        line = (R.rowof if side == "user" else R.colof)(ent, r)
        A, b = R.system(ctx, line, F0, a, g, nu, loss, prior=pr[r])
        one(ctx, f"{side} {r}", solver, A, b, pr[r], got[r], cg)
    tr = ctx.dense(getattr(rec.trainer_as_ials, f"transform_{side}_feature")(fm))
    ctx.all_eq("prior embedding = features x weights", tr, pr)
    dot = lambda p, q: sum((x * y for x, y in zip(p, q)), ctx.const(0))
    if side == "user":
        s = ctx.dense(rec.get_score_cold_user_from_features(fm) if only else rec.get_score_cold_user(X, user_features=fm))
        ctx.all_eq("cold user score = embedding x item factors", s, [[dot(e, v) for v in F0] for e in got])
    elif only:
        idx = ctx.choice("users", [[0], [n - 1, 0], []])
        s = ctx.dense(rec.get_score_from_item_features(np.array(idx, dtype=np.int64), fm))
        ctx.all_eq("score of feature-only items = user factors x embedding", s, [[dot(F0[u], e) for e in got] for u in idx])
    ctx.reach("cold")


def definite(ctx, solver):
    """an interaction value may be negative: the equations are solved, or refused when they have no minimum"""
    K, a, g = 1, R.C(ctx, "1/4"), R.C(ctx, "1/2")
    F0, one_ = R.mat(ctx, "f", [["1/2"], [1]]), ctx.const(1)
    x = ctx.real("x", lo=-16, hi=16)
    ctx.assume(x != 0)
    rec = build(ctx, R.sparse(ctx, {(0, 0): one_}, (1, 2)), K, a, g, 1.0, "IALSPP", solver, uf=[[one_]], lu=one_, cg=1)
    R.set_factors(ctx, rec, [[one_]], F0, K)
    rec.trainer_as_ials.core_trainer.user_feature_weight = R.arr(ctx, [[one_]], K)
    f = lambda: rec.compute_user_embedding(R.sparse(ctx, {(0, 0): x}, (1, 2)), user_features=R.features(ctx, [[one_]], False))
    A, b = R.system(ctx, {0: x}, F0, a, g, 1.0, "IALSPP", prior=[one_])
    d, eps = A[0][0], R.C(ctx, "1/8")
    if bool(d > eps):
        got, err = ctx.call(f, ValueError, RuntimeError)
        ctx.check("positive values are always accepted", err is None or bool(x < 0))
        if err is None:
            ctx.eq("solution", ctx.dense(got)[0][0] * d, b[0])
            ctx.reach("solved")
    else:
        ctx.assume(d < -eps)
        ctx.assume((b[0] - d) * (b[0] - d) > eps)  # the prior itself is not already a stationary point
        ctx.raises("no minimum is an error", (ValueError, RuntimeError), f)
        ctx.reach("refused")


def mixed(ctx, extra, sparse=False, solver="CHOLESKY"):
    """get_score_cold_user_with_item_features: known items first, then the additional ones"""
    K = 1
    V, Ux = R.mat(ctx, "v", [["s"], ["1/2"]]), R.mat(ctx, "u", [["1/2"], ["-3/4"]])
    W = R.mat(ctx, "w", [["1/2"]])
    one_ = ctx.const(1)
    ent = R.values(ctx, "x", [["s", None], [None, 1], [1, "1/2"]])
    rec = build(ctx, R.sparse(ctx, {(0, 0): one_, (1, 1): one_}, (2, 2)), K, R.C(ctx, "1/4"), R.C(ctx, "1/2"), 1.0, "IALSPP", solver,
                vf=[[one_], [one_]], lv=one_, sparse=sparse)
    R.set_factors(ctx, rec, Ux, V, K)
    rec.trainer_as_ials.core_trainer.item_feature_weight = R.arr(ctx, W, K)
    X = R.sparse(ctx, ent, (3, 2))
    cf = R.mat(ctx, "c", [["s"], [1], ["-1/2"]][:extra])
    if extra:
        fm = R.features(ctx, cf, sparse)
    elif sparse:
        fm = ctx.sps.csr_matrix((0, 1))
    else:
        fm = ctx.asarray([], (0, 1))
    got = ctx.dense(rec.get_score_cold_user_with_item_features(X, fm))
    ue = ctx.dense(rec.compute_user_embedding(X))
    ie = ctx.dense(rec.compute_item_embedding_from_features(fm)) if extra else []
    want = [[e[0] * v[0] for v in V + ie] for e in ue]
    ctx.check("shape", len(got) == 3 and all(len(r) == 2 + extra for r in got))
    ctx.all_eq("known items first, additional items after", got, want)
    if extra:  # the answer depends on the arguments of this call and on the current model only
        cf2 = [[x + 1 for x in r] for r in reversed(cf)]
        fm2 = R.features(ctx, cf2, sparse)
        again = ctx.dense(rec.get_score_cold_user_with_item_features(X, fm2))
        ie2 = ctx.dense(rec.compute_item_embedding_from_features(fm2))
        ctx.all_eq("other features on the same model", again, [[e[0] * v[0] for v in V + ie2] for e in ue])
        core = rec.trainer_as_ials.core_trainer
        core.item_feature_weight = R.arr(ctx, [[-2 * w[0]] for w in W], K)
        again = ctx.dense(rec.get_score_cold_user_with_item_features(X, fm2))
        ie3 = ctx.dense(rec.compute_item_embedding_from_features(fm2))
        ctx.all_eq("same features after the model changed", again, [[e[0] * v[0] for v in V + ie3] for e in ue])
        if solver == "CHOLESKY":  # the embedding is linear in features and in weights
            ctx.all_eq("embedding follows the weights", ie3, [[-2 * e[0]] for e in ie2])
            for p, q, c, c2 in zip(ie[::-1], ie2, cf[::-1], cf2):
                ctx.eq("embedding follows the features", q[0] * c[0], p[0] * c2[0])
    ctx.reach("mixed")


def rejects(ctx):
    from irspack.recommenders import IALSRecommender

    E = (ValueError, RuntimeError)
    X = ctx.sparse("x", [[0, 1], [1]], 3, values=1.0)
    ones = lambda n, m: ctx.asarray([[ctx.const(1)] * m for _ in range(n)], (n, m))
    base = dict(n_components=2, alpha0=0.5, n_threads=1, train_epochs=0, init_std=0.0)
    mk = lambda **kw: IALSRecommender(X, **{**base, **kw}).learn()
    kind = ctx.choice("kind", ["rows user", "rows item", "lambda user", "lambda item", "ialspp", "cold cols", "cold rows", "not initialised",
                               "cold item cols", "empty row"])
    if kind == "rows user":
        n = ctx.choice("n", [1, 3])
        ctx.raises(kind, E, lambda: mk(user_features=ones(n, 1), lambda_user_feature=1.0))
    elif kind == "rows item":
        n = ctx.choice("n", [2, 4])
        ctx.raises(kind, E, lambda: mk(item_features=ones(n, 1), lambda_item_feature=1.0))
    elif kind in ("lambda user", "lambda item"):
        s = kind.split()[1]
        l = ctx.real("lam", lo=-3, hi=3)
        ok = bool(l > 0)
        f = lambda: mk(**{f"{s}_features": ones(2 if s == "user" else 3, 1), f"lambda_{s}_feature": l})
        if ok:
            f()
        else:
            ctx.raises(kind, E, f)
    elif kind == "ialspp":
        s = ctx.choice("side", ["user", "item"])
        ctx.raises(kind, E, lambda: mk(solver_type="IALSPP", **{f"{s}_features": ones(2 if s == "user" else 3, 1), f"lambda_{s}_feature": 1.0}))
    elif kind == "cold cols":
        m = ctx.choice("m", [1, 3])
        rec = mk(user_features=ones(2, 2), lambda_user_feature=1.0)
        ctx.raises(kind, E, lambda: rec.compute_user_embedding(X, user_features=ones(2, m)))
    elif kind == "cold item cols":
        m = ctx.choice("m", [1, 3])
        rec = mk(item_features=ones(3, 2), lambda_item_feature=1.0)
        ctx.raises(kind, E, lambda: rec.compute_item_embedding_from_features(ones(1, m)))
    elif kind == "cold rows":
        n = ctx.choice("n", [1, 3])
        rec = mk(user_features=ones(2, 2), lambda_user_feature=1.0)
        ctx.raises(kind, E, lambda: rec.compute_user_embedding(X, user_features=ones(n, 2)))
    elif kind == "not initialised":
        s = ctx.choice("side", ["user", "item", "score"])
        rec = mk()
        if s == "user":
            ctx.raises(kind, E, lambda: rec.compute_user_embedding(X, user_features=ones(2, 1)))
        elif s == "item":
            ctx.raises(kind, E, lambda: rec.compute_item_embedding_from_features(ones(2, 1)))
        else:
            ctx.raises(kind, (NotImplementedError,), lambda: rec.get_score_cold_user_with_item_features(X, ones(2, 1)))
    elif kind == "empty row":
        # alpha0 = 0: a row without interactions has no unique embedding when nu > 0
        nu = ctx.choice("nu", [0.0, 1.0])
        rec = mk(user_features=ones(2, 1), lambda_user_feature=1.0, alpha0=0.0, nu=nu, reg=0.5, solver_type=ctx.choice("solver", ["CG", "CHOLESKY"]))
        f = lambda: rec.compute_user_embedding_from_features(ones(1, 1))
        if nu == 0.0:
            ctx.all_eq("zero prior stays zero", ctx.dense(f()), [[0, 0]])
        else:
            ctx.raises(kind, E, f)
    ctx.reach("rejects")


N = None
X2 = [["3/2", N], [N, "1/2"], [N, N]]
XS = [["s", N], [1, "s"], [N, N]]
V1, U1 = [["1/2"], ["-3/4"]], [["1/2"], ["-3/4"], [1]]
V2, U2 = [["1/2", "1/4"], ["-3/4", 1]], [["1/2", "1/4"], ["-3/4", 1], [1, "-1/2"]]
FU1, FV1 = [[1], ["1/2"], ["-3/4"]], [["3/4"], ["-1/2"]]
FU1S, FV1S = [["s"], ["1/2"], ["s"]], [["3/4"], ["s"]]
FU2, FV2 = [[1, 0], ["1/2", 1], ["-3/4", "1/4"]], [["3/4", 1], ["-1/2", "1/4"]]
W1, W1S, W2 = [["1/2"]], [["s"]], [["1/2"], ["-1/4"]]
W22 = [["1/2", "1/4"], ["-1/4", 1]]
SOLV = ("CHOLESKY", "CG")
HARNESSES = [
    H("epoch", epoch,
      [dict(rows=X2, U=U1, V=V1, uf=FU1, vf=FV1, wu=W1, wv=W1, solver=s, loss=l, nu=n, sparse=sp)
       for s, l, n, sp in (("CHOLESKY", "IALSPP", 1.0, False), ("CG", "ORIGINAL", 1.0, True), ("CHOLESKY", "ORIGINAL", 2.0, True), ("CG", "IALSPP", 0.0, False))]
      + [dict(rows=XS, U=U1, V=V1, uf=FU1, wu=W1, solver="CHOLESKY", loss="ORIGINAL", items=False, sparse=True),
         dict(rows=[["s"], [N]], U=U1[:2], V=V1[:1], uf=FU1[:2], wu=W1, solver="CG", loss="IALSPP", items=False)]
      + [dict(rows=X2, U=U1, V=V1, vf=FV1S, wv=W1S, solver=s, sparse=sp) for s, sp in zip(SOLV, (True, False))]
      + [dict(rows=X2, U=U1, V=V1, uf=FU1S, wu=W1S, solver="CHOLESKY", sparse=sp, items=False) for sp in (True, False)]
      + [dict(rows=[["1/2"], [N]], U=U1[:2], V=V1[:1], uf=[[1], ["s"]], wu=w, solver="CG", sparse=sp, items=False) for w, sp in ((W1, True), (W1, False))]
      + [dict(rows=[["1/2"], [N]], U=U1[:2], V=V1[:1], uf=FU1[:2], wu=W1S, solver="CG", items=False)]
      + [dict(rows=X2, U=U1, V=V1, uf=FU1, wu=W1, solver="CHOLESKY", lam="s", reg="s", items=False)]
      + [dict(rows=[["1/2"], [N]], U=U1[:2], V=V1[:1], uf=FU1[:2], wu=W1, solver="CG", items=False, **k) for k in (dict(lam="s"),)]
      + [dict(rows=[["1/2"], [N]], U=U1[:2], V=V1[:1], uf=FU1[:2], wu=W1, solver="CHOLESKY", alpha0="s", items=False, loss="ORIGINAL")]
      + [dict(rows=X2, U=U2, V=V2, uf=FU2, vf=FV2, wu=W22, wv=W22, solver=s, loss=l, sparse=sp)
         for s, l, sp in (("CHOLESKY", "ORIGINAL", False), ("CG", "IALSPP", True))]
      + [dict(rows=[[1], ["1/2"]], U=U2[:2], V=V2[:1], uf=FU2[:2], wu=W22, solver="CHOLESKY", threads=2, sparse=True)]
      + [dict(rows=[[1, "1/2"]], U=U2[:1], V=V2, vf=FV2, wv=W22, solver="CG", threads=2)]
      + [dict(rows=X2, U=U1, V=V1, uf=FU1, wu=W1, solver="CG", threads=2, items=False)]
      + [dict(rows=[[1], ["1/2"]], U=[["1/2", 1, "-1/4"], [1, "-1/2", "3/4"]], V=[["1/2", "-1/4", 1]], uf=[[1], ["1/2"]], wu=[["1/2", "1/4", "-1"]],
              solver="CHOLESKY", threads=2, items=False)]
      + [dict(rows=X2, U=U1, V=V1, uf=FU1, vf=FV1, solver=s, warm=w, epochs=2) for s in SOLV for w in (0, 1, 2)],
      [dict(rows=X2, U=U2, V=V2, uf=FU2, vf=FV2, wu=W22, wv=W22, solver=s, loss=l, sparse=sp, nu=n)
       for s, l, sp, n in (("CHOLESKY", "IALSPP", True, 2.0), ("CG", "ORIGINAL", False, 0.0))]
      + [dict(rows=XS, U=U1, V=V1, uf=FU1, vf=FV1, wu=W1, wv=W1, solver=s) for s in SOLV], tol=2e-3),
    H("cold", cold,
      [dict(side=sd, rows=[["s", N, "s"], [N, N, N]] if sd == "user" else [["s", N], [N, N], ["s", N]], F=U1, feats=[["s"], ["1/2"]], w=W1, solver=s,
            loss=l, sparse=sp) for sd in ("user", "item") for s, l, sp in (("CHOLESKY", "IALSPP", False), ("CG", "ORIGINAL", True))]
      + [dict(side=sd, rows=[[1, N, "1/2"], [N, N, N]] if sd == "user" else [[1, N], [N, N], ["1/2", N]], F=U1, feats=[["1/2"], ["s"]], w=W1S,
              solver=s, alpha0=a, nu=n) for sd in ("user", "item") for s, n, a in (("CHOLESKY", 2.0, "s"), ("CG", 1.0, "1/4"))]
      + [dict(side="user", rows=[[1, N, "1/2"]], F=U1, feats=[["1/2"]], w=W1, solver="CG", alpha0="s", loss="ORIGINAL")]
      + [dict(side=sd, rows=[[1, N, "1/2"], [N, N, N]] if sd == "user" else [[1, N], [N, N], ["1/2", N]], F=U2, feats=[["1/2", 1], ["s", "-1/2"]], w=W22,
              solver=s) for sd in ("user", "item") for s in SOLV]
      + [dict(side=sd, rows=[], F=U1, feats=[["s"], [1]], w=W1, solver=s, only=True, sparse=sp, loss=l) for sd in ("user", "item")
         for s, sp, l in (("CHOLESKY", True, "ORIGINAL"), ("CG", False, "IALSPP"))]
      + [dict(side=sd, rows=[], F=U2, feats=[["1/2", "s"]], w=W22, solver=s, only=True, sparse=sp) for sd in ("user", "item") for s, sp in zip(SOLV, (True, False))]
      + [dict(side=sd, rows=[["s", N, 1], [N, N, N]] if sd == "user" else [["s", N], [N, N], [1, N]], F=U1, feats=[["1/2"], [1]], w=W1, solver=s,
              eps=0.5) for sd in ("user", "item") for s in ("CHOLESKY",)]
      + [dict(side=sd, rows=[[1, N, "1/2"], [N, N, N]] if sd == "user" else [[1, N], [N, N], ["1/2", N]], F=U2, feats=[["1/2", 1], ["s", "-1/2"]], w=W22,
              solver="CG", cg=1) for sd in ("user", "item")], [], tol=2e-3),
    H("mixed", mixed, [dict(extra=e, sparse=sp, solver=s) for e in (0, 1, 3) for sp, s in ((False, "CG"), (True, "CHOLESKY"))], [], tol=2e-3),
    H("definite", definite, [dict(solver=s) for s in SOLV]),
    H("rejects", rejects, [dict()]),
]
