"""Recommenders wrapping a factorisation library: what is passed in, what is scored."""
import contextlib
import importlib
import pickle
import sys
import types
import warnings

import numpy as np

from ..ctx import H

ID = "C28"
MODULES = []
FUNCTIONS = ["irspack.recommenders.truncsvd TruncatedSVDRecommender", "irspack.recommenders.nmf NMFRecommender", "irspack.recommenders.bpr BPRFMRecommender, BPRFMTrainer",
             "irspack.recommenders.multvae MultVAETrainer.get_score_cold_user, run_epoch, save_state, load_state; MultVAERecommender.get_score, get_score_cold_user",
             "irspack.recommenders.base get_score_remove_seen, learn; base_earlystop learn, save_state, load_state"]
BOUNDS = ("up to 4 users x 3 items, 2 components, arbitrary factors returned by the library (sklearn, lightfm, jax/haiku/optax are uninterpreted stand-ins "
          "that record their inputs); every minibatch size up to users+1, every shuffle of the users, up to 3 epochs")


@contextlib.contextmanager
def modules(**mods):
    """stand-ins for libraries; the irspack module using them is imported afresh"""
    saved = {}
    for k, v in mods.items():
        name = k.replace("__", ".")
        saved[name] = sys.modules.get(name)
        if v is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = v
    pk = sys.modules.get("irspack.recommenders")
    keep = dict(pk.__dict__) if pk else {}
    reg = pk.base.RecommenderMeta.recommender_name_vs_recommender_class
    regsaved = dict(reg)
    try:
        yield
    finally:
        for name, v in saved.items():
            if v is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = v
        reg.clear()
        reg.update(regsaved)
        if pk:
            for k in list(pk.__dict__):
                if k not in keep:
                    del pk.__dict__[k]
            pk.__dict__.update(keep)


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def dot(A, B):
    """rows times rows"""
    return [[sum((a * b for a, b in zip(r, c)), 0) if r else 0 for c in B] for r in A]


def tr(M):
    return [list(c) for c in zip(*M)]


def grid(ctx, name, n, m):
    return [[ctx.real(f"{name}{i}_{j}") for j in range(m)] for i in range(n)]


def same_matrix(ctx, label, got, X):
    ctx.all_eq(label, [list(r) for r in ctx.dense(got)], [list(r) for r in ctx.dense(X)])


class Decomp:
    """stand-in for sklearn's TruncatedSVD / NMF: arbitrary factors"""

    def __init__(self, world, kw):
        self.world, self.kw, self.fitted = world, kw, False
        world.made.append(self)

    def _fit(self, X):
        self.world.fit.append(X)
        self.fitted = True
        self.components_ = self.world.ctx.asarray(self.world.H, (len(self.world.H), len(self.world.H[0])))

    def fit(self, X, y=None):
        self._fit(X)
        return self

    def fit_transform(self, X, y=None):
        self._fit(X)
        return self.world.ctx.asarray(self.world.Z, (len(self.world.Z), len(self.world.Z[0])))

    def transform(self, X):
        w = self.world
        if not self.fitted:
            raise ValueError("not fitted")
        w.transformed.append(X)
        # a row of the result depends on the row of the input only: new rows get new symbols, training rows their z
        out = []
        for r in w.ctx.dense(X):
            key = tuple(1 if bool(v != 0) else 0 for v in r)
            out.append(w.cold[key])
        return w.ctx.asarray(out, (len(out), len(w.H)))


class World:
    def __init__(self, ctx, n_users, n_items, k, cold):
        self.ctx = ctx
        self.made, self.fit, self.transformed = [], [], []
        self.Z, self.H = grid(ctx, "z", n_users, k), grid(ctx, "h", k, n_items)
        self.cold = {c: [ctx.real(f"c{a}_{j}") for j in range(k)] for a, c in enumerate(cold)}


PAT = [[0, 2], [1], [], [0, 1]]
COLD = [(1, 0, 0), (0, 1, 1), (0, 0, 0)]


def svd(ctx, n_users=3, n_items=3, k=2, ask=None):
    w = World(ctx, n_users, n_items, k, COLD)

    class TruncatedSVD(Decomp):
        def __init__(self, n_components=2, *, random_state=None, **kw):
            super().__init__(w, dict(kw, n_components=n_components, random_state=random_state))

    real = sys.modules["sklearn.decomposition"]
    fake = mod("sklearn.decomposition", **{k_: getattr(real, k_) for k_ in ("NMF",)}, TruncatedSVD=TruncatedSVD)
    with modules(sklearn__decomposition=fake, irspack__recommenders__truncsvd=None):
        m = importlib.import_module("irspack.recommenders.truncsvd")
        X = ctx.sparse("x", PAT[:n_users], n_items, nonneg=True)
        seed = ctx.choice("seed", [0, 7])
        asked = k if ask is None else ask
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec = m.TruncatedSVDRecommender(X, n_components=asked, random_seed=seed)
        ctx.raises("scores before learning", RuntimeError, lambda: rec.get_score(np.array([0])))
        ctx.check("learn returns the model", rec.learn() is rec)
        ctx.check("one decomposition", len(w.made) >= 1)
        kw = w.made[-1].kw
        ctx.check(f"components {kw}", kw["n_components"] == min(asked, n_items - 1) and kw["random_state"] == seed)
        same_matrix(ctx, "fitted on the training matrix", w.fit[-1], X)
        full = dot(w.Z, tr(w.H))
        pick = [2, 0, 0] if n_users > 2 else [1, 0]
        ctx.all_eq("get_score", rec.get_score(np.array(pick)), [full[u] for u in pick])
        b = ctx.choice("begin", list(range(n_users + 1)))
        e = ctx.choice("end", list(range(n_users + 1)))
        if b < e:
            ctx.all_eq("block", rec.get_score_block(b, e), full[b:e])
        ctx.all_eq("user embedding", rec.get_user_embedding(), w.Z)
        ctx.all_eq("item embedding", rec.get_item_embedding(), tr(w.H))
        E = grid(ctx, "e", 2, k)
        ctx.all_eq("from user embedding", rec.get_score_from_user_embedding(ctx.asarray(E, (2, k))), dot(E, tr(w.H)))
        ctx.all_eq("from item embedding", rec.get_score_from_item_embedding(np.array(pick), ctx.asarray(E, (2, k))), dot([w.Z[u] for u in pick], E))
        C = ctx.sparse("cold", [[i for i, v in enumerate(c) if v] for c in COLD], n_items, values=1.0)
        ctx.all_eq("cold", rec.get_score_cold_user(C), dot([w.cold[c] for c in COLD], tr(w.H)))
        masked = rec.get_score_remove_seen(np.arange(n_users))
        for u in range(n_users):
            for i in range(n_items):
                if i not in PAT[u]:
                    ctx.eq(f"masked[{u},{i}]", masked[u, i], full[u][i])
    ctx.reach("svd")


def nmf(ctx, n_users=3, n_items=3, k=2):
    w = World(ctx, n_users, n_items, k, COLD)

    class NMF(Decomp):
        def __init__(self, n_components=None, **kw):
            if set(kw) - {"init", "solver", "beta_loss", "tol", "max_iter", "random_state", "alpha_W", "alpha_H", "l1_ratio", "verbose", "shuffle"}:
                raise TypeError(f"unexpected keyword {kw}")
            super().__init__(w, dict(kw, n_components=n_components))

    fake = mod("sklearn.decomposition", TruncatedSVD=sys.modules["sklearn.decomposition"].TruncatedSVD, NMF=NMF)
    with modules(sklearn__decomposition=fake, irspack__recommenders__nmf=None):
        m = importlib.import_module("irspack.recommenders.nmf")
        X = ctx.sparse("x", PAT[:n_users], n_items, nonneg=True)
        alpha, l1 = ctx.real("alpha", 0, 1), ctx.real("l1", 0, 1)
        init = ctx.choice("init", [None, "nndsvd"])
        beta = ctx.choice("beta", ["frobenius", "kullback-leibler"])
        rec = m.NMFRecommender(X, n_components=k, alpha=alpha, l1_ratio=l1, beta_loss=beta, init=init).learn()
        kw = w.made[-1].kw
        ctx.check(f"settings {kw}", kw["n_components"] == k and kw.get("init") == init and kw.get("beta_loss", "frobenius") == beta)
        ctx.eq("alpha", kw["alpha_W"], alpha)
        ctx.eq("l1_ratio", kw["l1_ratio"], l1)
        ctx.check("seeded", kw.get("random_state") is not None)
        same_matrix(ctx, "fitted on the training matrix", w.fit[-1], X)
        full = dot(w.Z, tr(w.H))
        pick = [2, 0, 0]
        ctx.all_eq("get_score", rec.get_score(np.array(pick)), [full[u] for u in pick])
        C = ctx.sparse("cold", [[i for i, v in enumerate(c) if v] for c in COLD], n_items, values=1.0)
        ctx.all_eq("cold", rec.get_score_cold_user(C), dot([w.cold[c] for c in COLD], tr(w.H)))
    ctx.reach("nmf")


def bpr(ctx, n_users=3, n_items=3, k=2, epochs=2):
    log = []

    class LightFM:
        n = 0

        def __init__(self, no_components=10, k=5, n=10, learning_schedule="adagrad", loss="logistic", learning_rate=0.05, rho=0.95, epsilon=1e-6,
                     item_alpha=0.0, user_alpha=0.0, max_sampled=10, random_state=None):
            self.kw = dict(no_components=no_components, loss=loss, item_alpha=item_alpha, user_alpha=user_alpha)
            self.epoch = 0

        def fit_partial(self, interactions, user_features=None, item_features=None, sample_weight=None, epochs=1, num_threads=1, verbose=False):
            log.append((interactions, epochs, num_threads))
            self.epoch += epochs
            self._set()
            return self

        def _set(self):
            # arbitrary factors, a function of the epoch
            f = F[self.epoch]
            self.user_embeddings = ctx.asarray(f[0], (n_users, k))
            self.item_embeddings = ctx.asarray(f[1], (n_items, k))
            self.item_biases = ctx.asarray(f[2], (n_items,))
            self.user_biases = ctx.asarray(f[3], (n_users,))

        def __getstate__(self):
            return (self.kw, self.epoch)

        def __setstate__(self, s):
            self.kw, self.epoch = s
            if self.epoch:
                self._set()

    LightFM.__qualname__ = "LightFM"
    LightFM.__module__ = "lightfm"
    F = {e: (grid(ctx, f"u{e}_", n_users, k), grid(ctx, f"i{e}_", n_items, k), [ctx.real(f"b{e}_{i}") for i in range(n_items)],
             [ctx.real(f"ub{e}_{i}") for i in range(n_users)]) for e in range(1, epochs + 1)}
    with modules(lightfm=mod("lightfm", LightFM=LightFM), irspack__recommenders__bpr=None):
        m = importlib.import_module("irspack.recommenders.bpr")
        X = ctx.sparse("x", PAT[:n_users], n_items, pos=True)
        ia, ua = ctx.real("ia", 0, 1), ctx.real("ua", 0, 1)
        loss = ctx.choice("loss", ["bpr", "warp", "logistic"])
        th = ctx.choice("threads", [1, 3])
        make = lambda: m.BPRFMRecommender(X, n_components=k, item_alpha=ia, user_alpha=ua, loss=loss, n_threads=th, train_epochs=epochs)
        if loss == "logistic":
            ctx.raises("other losses are refused", ValueError, make)
            return
        rec = make()
        ctx.raises("scores before learning", RuntimeError, lambda: rec.get_score(np.array([0])))
        if ctx.choice("mode", ["learn", "best"]) == "learn":
            rec.learn()
            last = epochs
        else:
            rec.start_learning()
            last = ctx.choice("best", list(range(1, epochs + 1)))
            for e in range(1, epochs + 1):
                rec.run_epoch()
                if e == last:
                    rec.save_state()
            rec.load_state()
        kw = rec.fm.kw
        ctx.check(f"settings {kw}", kw["no_components"] == k and kw["loss"] == loss)
        ctx.eq("item_alpha", kw["item_alpha"], ia)
        ctx.eq("user_alpha", kw["user_alpha"], ua)
        ctx.check("epochs run", sum(x[1] for x in log) == epochs and all(x[2] == th for x in log))
        for x, _, _ in log:
            same_matrix(ctx, "fitted on the training matrix", x, X)
        U, I, b, _ = F[last]
        full = [[v + bb for v, bb in zip(r, b)] for r in dot(U, I)]
        pick = [2, 0, 0]
        ctx.all_eq("get_score", rec.get_score(np.array(pick)), [full[u] for u in pick])
        ctx.all_eq("block", rec.get_score_block(1, 3), full[1:3])
        ctx.all_eq("user embedding", rec.get_user_embedding(), U)
        ctx.all_eq("item embedding", rec.get_item_embedding(), I)
        E = grid(ctx, "e", 2, k)
        ctx.all_eq("from user embedding", rec.get_score_from_user_embedding(ctx.asarray(E, (2, k))), [[v + bb for v, bb in zip(r, b)] for r in dot(E, I)])
        ctx.all_eq("from item embedding", rec.get_score_from_item_embedding(np.array(pick), ctx.asarray(E, (2, k))), dot([U[u] for u in pick], E))
    ctx.reach("bpr")


class Rows:
    """an uninterpreted, row-wise network output: log_softmax[row, i] = w_i . x + params, one KL for the batch"""

    def __init__(self, ctx, n_items):
        self.ctx, self.n_items = ctx, n_items
        self.W = grid(ctx, "w", n_items, n_items)

    def __call__(self, params, x):
        return [sum((a * b for a, b in zip(self.W[i], x)), 0) + params for i in range(self.n_items)]


class Seq:
    def __init__(self, seed):
        self.k = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        return self.k


class Jnp(types.ModuleType):
    ndarray = np.ndarray
    float32 = np.float32

    @staticmethod
    def asarray(x, dtype=None):
        return x

    array = asarray


def vae(ctx, n_users=3, n_items=2, epochs=2):
    seen = dict(apply=[], updates=[], states=[])
    net = Rows(ctx, n_items)
    P = [ctx.real(f"p{e}") for e in range(4 * (n_users + 1) * epochs + 1)]

    class Out:
        def __init__(self, log_softmax, KL):
            self.log_softmax = log_softmax
            self.KL = KL

    KL = ctx.real("KL")

    class Transformed:
        def init(self, rng, X, *a):
            seen["init"] = (X.shape, a)
            return P[0]

        def apply(self, params, rng, X, dropout, train):
            data = [[X[i, j] for j in range(n_items)] for i in range(X.shape[0])]
            seen["apply"].append((params, data, dropout, train, rng))
            return Out(ctx.asarray([net(params, r) for r in data], (X.shape[0], n_items)), KL)

    class Opt:
        """the optimiser: the k-th step leads from one arbitrary parameter to the next one"""

        def __init__(self, rate):
            seen["rate"] = rate

        def init(self, params):
            return 0

        def update(self, grads, state, params=None):
            seen["states"].append(state)
            return ("step", grads), state + 1

    def grad(f, *a, **k):
        def g(*args, **kw):
            seen["apply"].clear()
            loss = f(*args, **kw)
            seen["updates"].append((loss, list(seen["apply"])))
            return loss

        return g

    def value_and_grad(f, *a, **k):
        g = grad(f)

        def h(*args, **kw):
            loss = g(*args, **kw)
            return loss, loss

        return h

    def apply_updates(params, updates):
        ctx.check("the optimiser's step is applied", updates[0] == "step")
        return P[len(seen["updates"])]

    any_ = lambda *a, **k: None
    jax = mod("jax", jit=lambda f, **k: f, grad=grad, value_and_grad=value_and_grad, nn=types.SimpleNamespace(log_softmax=any_), random=types.SimpleNamespace(normal=any_))
    jn = Jnp("jax.numpy")
    jax.numpy = jn
    hk = mod("haiku", transform=lambda f: Transformed(), PRNGSequence=Seq, Linear=object, Sequential=object, Params=object, dropout=any_, next_rng_key=any_)
    optax = mod("optax", OptState=object, adam=lambda learning_rate: Opt(learning_rate), apply_updates=apply_updates)
    with modules(jax=jax, jax__numpy=jn, haiku=hk, optax=optax, irspack__recommenders__multvae=None):
        m = importlib.import_module("irspack.recommenders.multvae")
        # every user has its own history
        pat = [[0], [1], [0, 1], []][:n_users]
        X = ctx.sparse("x", pat, n_items, pos=True)
        dense = [list(r) for r in ctx.dense(X)]
        mb = ctx.choice("mb", list(range(1, n_users + 2)))
        goal = ctx.real("goal", 0, 1)
        drop = ctx.real("drop", 0, 1)
        ann = ctx.choice("anneal", [1, 2])
        rec = m.MultVAERecommender(X, dim_z=1, enc_hidden_dims=2, minibatch_size=mb, kl_anneal_goal=goal, anneal_end_epoch=ann, dropout_p=drop, train_epochs=epochs)
        ctx.raises("scores before learning", RuntimeError, lambda: rec.get_score(np.array([0])))
        rec.start_learning()
        orders, keys = [], []
        import numpy.random as npr

        def shuffle(a):
            idx = list(range(len(a)))
            perm = []
            while idx:
                perm.append(idx.pop(ctx.pick(f"perm{len(orders)}_{len(perm)}", len(idx)) if len(idx) > 1 else 0))
            a[:] = np.array(a)[perm]
            orders.append(perm)

        saved_at = None
        holders = [x for x in (npr, getattr(ctx.np, "random", None), getattr(m.np, "random", None)) if x is not None and hasattr(x, "shuffle")]
        olds = [(x, x.shuffle) for x in holders]
        for x in holders:
            try:
                x.shuffle = shuffle
            except (AttributeError, TypeError):
                pass
        try:
            for e in range(epochs):
                first = len(seen["updates"])
                rec.run_epoch()
                batch = seen["updates"][first:]
                ctx.check("one evaluation of the network a step", all(len(ap) == 1 for _, ap in batch))
                parts = [ap[0] for _, ap in batch]
                rows = [r for _, d, _, _, _ in parts for r in d]
                ctx.check("each epoch uses every user once", len(rows) == n_users)
                left = list(range(n_users))
                for r in rows:
                    hit = [u for u in left if all(bool(a == b) for a, b in zip(r, dense[u]))]
                    ctx.check("a row is an unused user's history", bool(hit))
                    if hit:
                        left.remove(hit[0])
                ctx.check("batches have the configured size", all(len(p[1]) == mb for p in parts[:-1]) and 1 <= len(parts[-1][1]) <= mb)
                for q, ((loss, _), (par, data, d, train, rng)) in enumerate(zip(batch, parts)):
                    k = first + q
                    ctx.eq("parameters are carried over", par, P[k])
                    ctx.check("optimiser state is carried over", seen["states"][k] == k)
                    ctx.eq("dropout", d, drop)
                    ctx.check("training mode", train is True)
                    keys.append(rng)
                    # linear annealing up to the goal over the configured number of epochs
                    kl = goal * min(1.0, k * mb / (ann * n_users))
                    nll = sum((-a * x for r in data for a, x in zip(net(P[k], r), r)), 0) / len(data)
                    ctx.eq(f"loss of update {k}", loss, nll + kl * KL)
                if e == 0:
                    rec.save_state()
                    saved_at = len(seen["updates"])
        finally:
            for x, f in olds:
                try:
                    x.shuffle = f
                except (AttributeError, TypeError):
                    pass
        ctx.check("a fresh key every step", len(set(keys)) == len(keys))
        cur = P[len(seen["updates"])]
        want = [net(cur, r) for r in dense]
        pick = [2, 0, 0] if n_users > 2 else [1, 0, 0]
        seen["apply"].clear()
        ctx.all_eq("get_score", rec.get_score(np.array(pick)), [want[u] for u in pick])
        ctx.all_eq("cold", rec.get_score_cold_user(X), want)
        ctx.check("scoring does not drop out", all(a[3] is False for a in seen["apply"]))
        rec.load_state()
        ctx.all_eq("restored state", rec.get_score_cold_user(X), [net(P[saved_at], r) for r in dense])
        again = pickle.loads(pickle.dumps(rec.trainer))
        ctx.all_eq("pickled trainer", again.get_score_cold_user(X), [net(P[saved_at], r) for r in dense])
    ctx.reach("vae")


def network(ctx, n_items=2, hidden=2, z=1, rows=1):
    """the network itself: layers are arbitrary linear maps, tanh / exp / sqrt / log-softmax polynomials with arbitrary coefficients"""
    t = [ctx.real(f"t{i}") for i in range(2)]
    ex = [ctx.real(f"ex{i}") for i in range(2)]
    ls = [ctx.real(f"ls{i}") for i in range(2)]
    sq = [ctx.real(f"sq{r}", 1, 4) for r in range(rows)]
    args = []
    made, noise = [], []
    cur = {}

    def vec(f):
        def g(x, *a, **k):
            x = ctx.np.asarray(x)
            flat = [f(v) for v in x.ravel().tolist()] if x.ndim else None
            return ctx.asarray(flat, (len(flat),)).reshape(x.shape)

        return g

    class Jn(Jnp):
        tanh = staticmethod(vec(lambda v: t[0] * v + t[1] * v * v))
        exp = staticmethod(vec(lambda v: 1 + ex[0] * v + ex[1] * v * v))

        @staticmethod
        def sqrt(x):
            x = ctx.np.asarray(x)
            args.append(x.ravel().tolist())
            return ctx.asarray(sq, (rows,)).reshape(x.shape)

    class Linear:
        def __init__(self, d):
            self.d, self.i = d, len(made)
            made.append(self)

        def __call__(self, x):
            W, b = wts(self.i, x.shape[1], self.d)
            return ctx.asarray([[sum((x[r, c] * W[c][k] for c in range(x.shape[1])), 0) + b[k] for k in range(self.d)] for r in range(x.shape[0])], (x.shape[0], self.d))

    W_ = {}

    def wts(i, n, d):
        if i not in W_:
            W_[i] = (grid(ctx, f"W{i}_", n, d), [ctx.real(f"B{i}_{k}") for k in range(d)])
        cur[i] = (n, d)
        return W_[i]

    class Sequential:
        def __init__(self, layers):
            self.layers = layers

        def __call__(self, x):
            for f in self.layers:
                x = f(x)
            return x

    class Transformed:
        def __init__(self, f):
            self.f = f

        def init(self, rng, X, *a):
            return 0

        def apply(self, params, rng, X, *a):
            made.clear()
            cur.clear()
            return self.f(X, *a)

    class Opt:
        def init(self, params):
            return 0

        def update(self, grads, state, params=None):
            return grads, state

    losses = []

    def grad(f, *a, **k):
        def g(*args, **kw):
            noise.clear()
            dropped.clear()
            losses.append(f(*args, **kw))
            return 0

        return g

    def log_softmax(x, axis=-1):
        ctx.check("normalised over the items", axis in (1, -1))
        return vec(lambda v: ls[0] * v + ls[1])(x)

    def normal(key, shape=(), dtype=None):
        noise.append((key, tuple(shape)))
        return ctx.asarray(EPS, (rows, z))

    DROP = [[ctx.real(f"d{r}_{i}") for i in range(n_items)] for r in range(rows)]
    EPS = grid(ctx, "eps", rows, z)
    keys = iter(range(100))
    dropped = []

    def dropout(key, p, x):
        dropped.append((key, p))
        return ctx.asarray([[x[r, i] * DROP[r][i] for i in range(n_items)] for r in range(rows)], (rows, n_items))

    any_ = lambda *a, **k: None
    jn = Jn("jax.numpy")
    jax = mod("jax", jit=lambda f, **k: f, grad=grad, nn=types.SimpleNamespace(log_softmax=log_softmax), random=types.SimpleNamespace(normal=normal), numpy=jn)
    hk = mod("haiku", transform=Transformed, PRNGSequence=Seq, Linear=Linear, Sequential=Sequential, Params=object, dropout=dropout, next_rng_key=lambda: next(keys))
    optax = mod("optax", OptState=object, adam=lambda learning_rate: Opt(), apply_updates=lambda params, updates: params)
    with modules(jax=jax, jax__numpy=jn, haiku=hk, optax=optax, irspack__recommenders__multvae=None):
        m = importlib.import_module("irspack.recommenders.multvae")
        pat = [[0, 1], [1]][:rows]
        X = ctx.sparse("x", pat, n_items, nonneg=True)
        x = [list(r) for r in ctx.dense(X)]
        dec = ctx.choice("dec", [None, 1])
        p, goal = ctx.real("p", 0, 1), ctx.real("goal", 0, 1)
        rec = m.MultVAERecommender(X, dim_z=z, enc_hidden_dims=hidden, dec_hidden_dims=dec, dropout_p=p, kl_anneal_goal=goal, anneal_end_epoch=1, minibatch_size=rows)
        rec.start_learning()
        lin = lambda i, v: [sum((a * W_[i][0][c][k] for c, a in enumerate(v)), 0) + W_[i][1][k] for k in range(cur[i][1])]
        tanh = lambda v: [t[0] * a + t[1] * a * a for a in v]

        def reference(train):
            out, kls = [], []
            for r in range(rows):
                v = [a / sq[r] for a in x[r]]
                if train:
                    v = [a * d for a, d in zip(v, DROP[r])]
                h = lin(1, tanh(lin(0, v)))
                mu, lv = h[:z], h[z:]
                std = [1 + ex[0] * (a * 0.5) + ex[1] * (a * 0.5) * (a * 0.5) for a in lv]
                kls.append(sum((0.5 * (s * s + a * a - 1 - b) for s, a, b in zip(std, mu, lv)), 0))
                zz = [a + e * s for a, e, s in zip(mu, EPS[r], std)] if train else mu
                out.append([ls[0] * a + ls[1] for a in lin(3, tanh(lin(2, zz)))])
            return out, sum(kls, 0) / rows

        holders = [h for h in (np.random, getattr(ctx.np, "random", None), getattr(m.np, "random", None)) if h is not None and hasattr(h, "shuffle")]
        olds = [(h, h.shuffle) for h in holders]
        for h in holders:
            try:
                h.shuffle = lambda a: None
            except (AttributeError, TypeError):
                pass
        try:
            for e in range(2):
                rec.run_epoch()
        finally:
            for h, f in olds:
                try:
                    h.shuffle = f
                except (AttributeError, TypeError):
                    pass
        ctx.check(f"layers {cur}", cur == {0: (n_items, hidden), 1: (hidden, 2 * z), 2: (z, dec or hidden), 3: (dec or hidden, n_items)})
        ctx.check("noise in training", len(noise) == 1 and len(dropped) == 1 and noise[0][0] != dropped[0][0])
        ctx.eq("dropout ratio", dropped[0][1], p)
        for got in args:
            for r in range(rows):
                ctx.eq("norm of the history", got[r], sum((a * a for a in x[r]), 0) + 1e-8)
        o, kl = reference(True)
        nll = sum((-a * b for r, q in zip(o, x) for a, b in zip(r, q)), 0) / rows
        ctx.check("two steps", len(losses) == 2)
        ctx.eq("loss without KL", losses[0], nll)
        ctx.eq("loss with KL", losses[1], nll + goal * kl)
        noise.clear()
        dropped.clear()
        ctx.all_eq("scores", rec.get_score_cold_user(X), reference(False)[0])
        ctx.check("no noise in scoring", not noise and not dropped)
    ctx.reach("network")


HARNESSES = [
    H("svd", svd, [dict(), dict(n_users=2, k=2, ask=9), dict(k=1, ask=1), dict(k=2, ask=3)]),
    H("nmf", nmf, [dict()]),
    H("bpr", bpr, [dict()], [dict(epochs=3)]),
    H("vae", vae, [dict(n_users=2, epochs=2), dict(n_users=3, epochs=1)], [dict(n_users=3, epochs=2)]),
    H("network", network, [dict(hidden=1), dict(hidden=1, rows=2), dict(hidden=2)], [dict(hidden=2, z=2)]),
]
