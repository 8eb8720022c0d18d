import numpy as np

from ..ctx import H

ID = "C08"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.recommenders.base.BaseRecommender.__init__ / get_score_remove_seen / get_score_remove_seen_block / "
             "get_score_cold_user_remove_seen", "irspack.recommenders.TopPopRecommender",
             "BaseSimilarityRecommender / BaseUserSimilarityRecommender scoring"]
BOUNDS = ("up to 4 users x 4 items, arbitrary real scores, interaction values (positive, negative) and weight matrices, "
          "all user index sequences listed (repeats, any order), all blocks, CSR / CSC input")
NEG = float("-inf")


def make(ctx, kind, X, n, train):
    """a recommender of each scoring family with an arbitrary learnt state, and its raw score"""
    from irspack.recommenders.base import BaseRecommender, BaseSimilarityRecommender, BaseUserSimilarityRecommender

    x = ctx.entries(X)
    nu = len(train)
    if kind == "arbitrary":
        rows = [[ctx.real(f"s{u}_{i}") for i in range(n)] for u in range(nu)]

        class A(BaseRecommender, register_class=False):
            def _learn(self):
                pass

            def get_score(self, idx):
                return ctx.asarray([rows[int(u)] for u in idx], (len(idx), n))

            def get_score_block(self, b, e):
                return self.get_score(range(nu)[b:e])

            def get_score_cold_user(self, X):
                return ctx.asarray([rows[k] for k in range(X.shape[0])], (X.shape[0], n))

        return A(X).learn(), (lambda u, i: rows[u][i]), None
    if kind.startswith("item"):
        sparse = kind.endswith("sparse")
        W = [[ctx.real(f"w{i}_{j}") if (not sparse or (i + 2 * j) % 3) else 0 for j in range(n)] for i in range(n)]

        class B(BaseSimilarityRecommender, register_class=False):
            def _learn(self):
                if sparse:
                    self._W = ctx.sparse("w", [[j for j in range(n) if (i + 2 * j) % 3] for i in range(n)], n, fmt="csc")
                else:
                    self._W = ctx.asarray(W, (n, n))

        def raw(u, i):
            return sum((x[u, j] * W[j][i] for j in train[u]), ctx.const(0))

        def cold(vals, i):
            return sum((v * W[j][i] for j, v in vals.items()), ctx.const(0))

        return B(X).learn(), raw, cold
    if kind == "user":
        U = [[ctx.real(f"u{a}_{b}") for b in range(nu)] for a in range(nu)]

        class C(BaseUserSimilarityRecommender, register_class=False):
            def _learn(self):
                self.U_ = ctx.sparse("u", [list(range(nu))] * nu, nu)

        def raw(u, i):
            return sum((U[u][v] * x[v, i] for v in range(nu) if i in train[v]), ctx.const(0))

        return C(X).learn(), raw, None
    from irspack.recommenders import TopPopRecommender

    def pop(u, i):
        return sum((x[v, i] for v in range(nu) if i in train[v]), ctx.const(0))

    return TopPopRecommender(X).learn(), pop, (lambda vals, i: pop(0, i))


def _cmp(ctx, label, got, want):
    ctx.check(f"{label} shape", tuple(got.shape) == (len(want), len(want[0]) if want else got.shape[1]))
    if tuple(got.shape)[0] != len(want):
        return
    for r, row in enumerate(want):
        for i, v in enumerate(row):
            ctx.eq(f"{label}[{r},{i}]", got[r, i], v)


def known(ctx, kind, train, n, users, fmt="csr"):
    X = ctx.sparse("x", train, n, fmt=fmt)
    for v in X.data:
        ctx.assume(v != 0)
    before = ctx.entries(X)
    rec, raw, _ = make(ctx, kind, X, n, train)
    nu = len(train)
    ctx.check("dimensions", (rec.n_users, rec.n_items) == (nu, n))

    def want(us, mask):
        return [[NEG if mask and i in train[u] else raw(u, i) for i in range(n)] for u in us]

    idx = np.array(users, dtype=np.int64)
    # masking must not leak into later calls
    _cmp(ctx, "masked", rec.get_score_remove_seen(idx), want(users, True))
    _cmp(ctx, "raw", rec.get_score(idx), want(users, False))
    _cmp(ctx, "masked again", rec.get_score_remove_seen(idx), want(users, True))
    if kind != "toppop":
        b = ctx.pick("begin", nu)
        e = b + 1 + ctx.pick("len", nu - b)
        _cmp(ctx, "block masked", rec.get_score_remove_seen_block(b, e), want(range(b, e), True))
        _cmp(ctx, "block raw", rec.get_score_block(b, e), want(range(b, e), False))
    after = ctx.entries(rec.X_train_all)
    ctx.check("training matrix kept", set(after) == set(before))
    for k in before:
        ctx.eq(f"training matrix {k}", after.get(k, 0), before[k])


def cold(ctx, kind, n, profiles, fmt="csr"):
    train = [[0, 1], [2], [1]]
    X = ctx.sparse("x", train, n)
    for v in X.data:
        ctx.assume(v != 0)
    rec, raw, fn = make(ctx, kind, X, n, train)
    C = ctx.sparse("c", profiles, n, fmt=fmt)
    for v in C.data:
        ctx.assume(v != 0)
    c = ctx.entries(C)

    def score(k, i):
        if fn is None:
            return raw(k, i)
        return fn({j: c[k, j] for j in profiles[k]}, i)

    for rnd in ("", " again"):
        _cmp(ctx, "masked" + rnd, rec.get_score_cold_user_remove_seen(C),
             [[NEG if i in profiles[k] else score(k, i) for i in range(n)] for k in range(len(profiles))])
        _cmp(ctx, "raw" + rnd, rec.get_score_cold_user(C), [[score(k, i) for i in range(n)] for k in range(len(profiles))])


TR = [[0, 2], [], [1, 2, 3], [3]]
KINDS = ["arbitrary", "item", "item sparse", "user", "toppop"]
HARNESSES = [
    H("known", known, [dict(kind=k, train=TR, n=4, users=u) for k in KINDS for u in ([2, 0, 3], [1, 1, 2], [2])]
      + [dict(kind=k, train=TR[:3], n=4, users=[2, 1], fmt="csc") for k in KINDS]
      + [dict(kind=k, train=[[0]], n=1, users=[0]) for k in ("arbitrary", "toppop")],
      [dict(kind=k, train=TR + [[0, 1, 2, 3, 4]], n=5, users=[4, 0, 2, 4]) for k in KINDS]),
    H("cold", cold, [dict(kind=k, n=4, profiles=p, fmt=f) for k in KINDS if k != "user" for p in ([[0, 3], []], [[1], [0, 2, 3], [2]], [[0, 3]])
                     for f in ("csr", "csc")]),
]
