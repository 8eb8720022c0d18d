import io
import pickle

import numpy as np

from . import ialsref as R
from ..ctx import H

ID = "C20"
MODULES = ["_ials_core", "_util_cpp"]
ALGEBRA = True
FUNCTIONS = ["irspack.recommenders.IALSRecommender.get_score / get_score_block / get_score_cold_user / get_score_from_user_embedding / "
             "get_score_from_item_embedding / get_*_embedding / save_state / load_state", "IALSTrainer.save_state, load_state",
             "als/IALSTrainer.hpp user_scores, Solver::initialize; als/wrapper.cpp pickling (compiled from source)"]
BOUNDS = ("1..3 latent dimensions, up to 4 users x 3 items with arbitrary factors, blocks of up to 70 users (work chunks of 16..128 rows); every "
          "(begin, end) of the small case; 1..3 threads in every schedule with <= 2 scheduling delays; the normal draws are an arbitrary function "
          "of the generator state; exact reals")


def dot(ctx, p, q):
    return sum((x * y for x, y in zip(p, q)), ctx.const(0))


def make(ctx, nu_, ni, K, threads=1, **kw):
    from irspack.recommenders import IALSRecommender

    X = R.sparse(ctx, {(u, u % ni): ctx.const(1) for u in range(nu_)}, (nu_, ni))
    kw = {**dict(n_components=K, alpha0=0.25, reg=0.5, init_std=0.0, n_threads=threads, train_epochs=0), **kw}
    return IALSRecommender(X, **kw).learn()


def scores(ctx, U, V, threads=1):
    K, nu_, ni = len(V[0]), len(U), len(V)
    U0, V0 = R.mat(ctx, "u", U), R.mat(ctx, "v", V)
    rec = make(ctx, nu_, ni, K, threads)
    R.set_factors(ctx, rec, U0, V0, K)
    want = [[dot(ctx, u, v) for v in V0] for u in U0]
    ctx.all_eq("user embedding", rec.get_user_embedding(), U0)
    ctx.all_eq("item embedding", rec.get_item_embedding(), V0)
    kind = ctx.choice("kind", ["index", "block", "embedding", "item embedding", "generic"])
    if kind == "index":
        idx = ctx.choice("idx", [[], [0], [nu_ - 1, 0], list(range(nu_))])
        ctx.all_eq("get_score", rec.get_score(np.array(idx, dtype=np.int64)), [want[u] for u in idx])
    elif kind == "block":
        b = ctx.int("begin", 0, nu_)
        e = ctx.int("end", 0, nu_)
        b, e = int(b), int(e)
        if e < b:
            ctx.raises("end before begin", (ValueError, RuntimeError), lambda: rec.get_score_block(b, e))
        else:
            got = rec.get_score_block(b, e)
            ctx.check("block shape", tuple(got.shape) == (e - b, ni))
            ctx.all_eq("get_score_block", got, want[b:e])
    elif kind == "embedding":
        E = R.mat(ctx, "e", [["s"] * K, ["1/2"] * K])
        ctx.all_eq("get_score_from_user_embedding", rec.get_score_from_user_embedding(R.arr(ctx, E, K)), [[dot(ctx, x, v) for v in V0] for x in E])
    elif kind == "item embedding":
        E = R.mat(ctx, "e", [["s"] * K, ["1/2"] * K])
        idx = ctx.choice("idx", [[0], [nu_ - 1, 0]])
        ctx.all_eq("get_score_from_item_embedding", rec.get_score_from_item_embedding(np.array(idx, dtype=np.int64), R.arr(ctx, E, K)),
                   [[dot(ctx, U0[u], x) for x in E] for u in idx])
    else:
        bad = ctx.choice("bad", ["end", "begin", "threads"])
        err = (ValueError, RuntimeError, IndexError)
        if bad == "end":
            ctx.raises("end beyond the users", err, lambda: rec.get_score_block(0, nu_ + 1))
        elif bad == "begin":
            ctx.raises("begin beyond the users", err, lambda: rec.get_score_block(nu_ + 1, nu_ + 1))
        else:
            ctx.raises("no threads", err, lambda: make(ctx, nu_, ni, K, 0).get_score_block(0, 1))
    ctx.reach(kind)


def blocks(ctx, n, begin, end, threads):
    """many users: the rows are worked on in chunks"""
    U = [["s"] if u % 13 == 5 or u == n - 1 else [f"{(7 * u) % 11 - 5}/4"] for u in range(n)]
    U0, V0 = R.mat(ctx, "u", U), R.mat(ctx, "v", [["s"], ["-3/4"]])
    rec = make(ctx, n, 2, 1, threads)
    R.set_factors(ctx, rec, U0, V0, 1)
    got = rec.get_score_block(begin, end)
    ctx.all_eq("get_score_block", got, [[u[0] * v[0] for v in V0] for u in U0[begin:end]])
    ctx.reach("blocks")


def cold(ctx, solver):
    V0 = R.mat(ctx, "v", [["1/2", "1/4"], ["s", "-3/4"], [1, "1/2"]])
    rec = make(ctx, 3, 3, 2, solver_type=solver, prediction_time_max_cg_steps=1, ialspp_subspace_dimension=1, prediction_time_ialspp_iteration=1)
    R.set_factors(ctx, rec, [[ctx.const(1)] * 2] * 3, V0, 2)
    X = R.sparse(ctx, R.values(ctx, "x", [[1, None, "1/2"], [None, 1, None]]), (2, 3), ctx.choice("fmt", ["csr", "csc"]))
    e = ctx.dense(rec.compute_user_embedding(X))
    ctx.all_eq("get_score_cold_user", rec.get_score_cold_user(X), [[dot(ctx, x, v) for v in V0] for x in e])
    ctx.all_eq("factors untouched", rec.get_item_embedding(), V0)
    ctx.reach("cold")


def state(ctx, feats, K):
    U0, V0 = R.mat(ctx, "u", [["s"] * K] * 2), R.mat(ctx, "v", [["s"] * K] * 3)
    kw = {}
    one = ctx.const(1)
    if feats:
        kw = dict(user_features=R.features(ctx, [[one]] * 2, False), item_features=R.features(ctx, [[one, one]] * 3, True), lambda_user_feature=0.5,
                  lambda_item_feature=0.5)
    rec = make(ctx, 2, 3, K, **kw)
    core = rec.trainer_as_ials.core_trainer
    R.set_factors(ctx, rec, U0, V0, K)
    if feats:
        W = R.mat(ctx, "wu", [["s"] * K]), R.mat(ctx, "wv", [["s"] * K] * 2)
        core.user_feature_weight, core.item_feature_weight = R.arr(ctx, W[0], K), R.arr(ctx, W[1], K)
    how = ctx.choice("how", ["recommender", "trainer", "other trainer", "core pickle", "core pickle transform"])
    def same(c):
        ctx.all_eq("user factors restored", c.user, U0)
        ctx.all_eq("item factors restored", c.item, V0)
        if feats:
            ctx.all_eq("user feature weights restored", c.user_feature_weight, W[0])
            ctx.all_eq("item feature weights restored", c.item_feature_weight, W[1])
    def wreck(c):
        z = lambda n: R.arr(ctx, [[ctx.const(7)] * K] * n, K)
        c.user, c.item = z(2), z(3)
        if feats:
            c.user_feature_weight, c.item_feature_weight = z(1), z(2)
    if how == "recommender":
        ctx.raises("nothing to load", (RuntimeError,), lambda: rec.load_state())
        rec.save_state()
        wreck(core)
        rec.load_state()
        same(rec.trainer_as_ials.core_trainer)
        wreck(core)
        rec.load_state()
        same(rec.trainer_as_ials.core_trainer)
    elif how in ("trainer", "other trainer"):
        f = io.BytesIO()
        rec.trainer_as_ials.save_state(f)
        f.seek(0)
        if how == "trainer":
            wreck(core)
            tr = rec.trainer_as_ials
        else:
            tr = make(ctx, 2, 3, K, **kw).trainer_as_ials
            wreck(tr.core_trainer)
        tr.load_state(f)
        same(tr.core_trainer)
    else:
        c = pickle.loads(pickle.dumps(core))
        same(c)
        if how == "core pickle transform" and K == 1:
            cfg = pickle.loads(pickle.dumps(rec.trainer_as_ials.prediction_time_solver_config))
            X = R.sparse(ctx, {(0, 0): ctx.const(1), (0, 2): ctx.const(2)}, (1, 3))
            X = X.astype(np.float32)
            if feats:
                fm = R.features(ctx, [[R.C(ctx, "1/2")]], False)
                fm = fm if ctx.symbolic else np.asarray(fm, dtype=np.float32)
                a, b = core.transform_user_with_feature(X, fm, cfg), c.transform_user_with_feature(X, fm, cfg)
            else:
                a, b = core.transform_user(X, cfg), c.transform_user(X, cfg)
            ctx.all_eq("unpickled model embeds alike", b, ctx.dense(a))
            ctx.all_eq("unpickled model scores alike", c.user_scores(0, 2, cfg), ctx.dense(core.user_scores(0, 2, cfg)))
    ctx.reach(how)


def config(ctx, which):
    """a pickled configuration is the configuration"""
    from irspack.recommenders import ials as M

    kw = dict(alpha0=ctx.real("alpha0", lo="1/8", hi=2), reg=ctx.real("reg", lo="1/8", hi=2), nu=ctx.choice("nu", [0.0, 1.0, 2.0]),
              loss_type=ctx.choice("loss", ["IALSPP", "ORIGINAL"]))
    rec = make(ctx, 2, 2, 1, **kw, solver_type="CHOLESKY")
    U0, V0 = R.mat(ctx, "u", [["1/2"], ["-3/4"]]), R.mat(ctx, "v", [["1/2"], ["1/4"]])
    R.set_factors(ctx, rec, U0, V0, 1)
    core = rec.trainer_as_ials.core_trainer
    c = pickle.loads(pickle.dumps(core))
    cfg = rec.trainer_as_ials.prediction_time_solver_config
    X = R.sparse(ctx, {(0, 0): ctx.const(1), (1, 1): ctx.const(2)}, (2, 2)).astype(np.float32)
    if which == "user":
        ctx.all_eq("user embedding", c.transform_user(X, cfg), ctx.dense(core.transform_user(X, cfg)))
    else:
        ctx.all_eq("item embedding", c.transform_item(X, cfg), ctx.dense(core.transform_item(X, cfg)))
    ctx.reach("config")


def init(ctx, K):
    from irspack.recommenders import IALSRecommender

    X = R.sparse(ctx, {(0, 0): ctx.const(1), (1, 2): ctx.const(1)}, (2, 3))
    s = ctx.real("std", lo=0, hi=2)
    seed = ctx.choice("seed", [0, 1, 42])
    mk = lambda std, t=1: IALSRecommender(X, n_components=K, alpha0=0.25, init_std=std, random_seed=seed, n_threads=t, train_epochs=0).learn()
    a, b, c = mk(s), mk(s, 2), mk(s * 2)
    for name, f in (("user", lambda r: ctx.dense(r.get_user_embedding())), ("item", lambda r: ctx.dense(r.get_item_embedding()))):
        A = f(a)
        ctx.check(f"{name} shape", len(A) == (2 if name == "user" else 3) and all(len(r) == K for r in A))
        ctx.all_eq(f"{name}: same seed, same start", f(b), A)
        ctx.all_eq(f"{name}: start proportional to init_std", f(c), [[v * 2 for v in r] for r in A])
    ctx.reach("init")


S = lambda n, k: [["s"] * k] * n
HARNESSES = [
    H("scores", scores, [dict(U=S(3, 2), V=S(3, 2)), dict(U=S(4, 1), V=S(2, 1)), dict(U=S(2, 3), V=S(3, 3)), dict(U=S(1, 2), V=S(1, 2), threads=2)],
      [dict(U=S(5, 2), V=S(3, 2), threads=2)], tol=1e-4),
    H("blocks", blocks, [dict(n=n, begin=b, end=e, threads=t) for n, b, e, t in ((17, 0, 17, 1), (40, 3, 40, 1), (40, 0, 33, 2), (70, 1, 70, 2), (20, 19, 20, 3), (20, 2, 18, 2),
                                                                                 (300, 0, 300, 1))],
      [dict(n=n, begin=b, end=e, threads=t) for n, b, e, t in ((70, 1, 70, 3), (150, 5, 150, 2), (600, 1, 599, 1))], tol=1e-4),
    H("cold", cold, [dict(solver=s) for s in ("CG", "CHOLESKY", "IALSPP")], tol=1e-3),
    H("state", state, [dict(feats=f, K=k) for f in (False, True) for k in (1, 2)], tol=1e-4),
    H("config", config, [dict(which=w) for w in ("user", "item")], tol=1e-3),
    H("init", init, [dict(K=1), dict(K=3)], tol=1e-4),
]
