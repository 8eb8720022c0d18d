import numpy as np

from ..ctx import H

ID = "C06"
MODULES = []
FUNCTIONS = ["irspack.split.UserTrainTestInteractionPair.__init__ / df_train / df_test / concat"]
NARROW = True
BOUNDS = ("pairs of up to 3 users x 4 items, arbitrary real stored values (zeros and disjoint or overlapping patterns included), CSR and CSC "
          "input, test part absent, empty or given")


def verify_df(ctx, label, df, X, user_ids, item_ids):
    e = ctx.entries(X)
    ctx.check(f"{label} columns", set(df.columns) >= {"user_id", "item_id", "rating"})
    rows = list(zip(df["user_id"], df["item_id"], df["rating"]))
    keys = [(user_ids.index(u) if u in user_ids else None, item_ids.index(i) if i in item_ids else None) for u, i, _ in rows]
    ctx.check(f"{label} one row per interaction", len(set(keys)) == len(keys) and set(keys) <= set(e))
    for k in e:
        if k not in keys:
            ctx.eq(f"{label} missing {k}", e[k], 0)
    for k, (_, _, r) in zip(keys, rows):
        if k in e:
            ctx.eq(f"{label} rating {k}", r, e[k])


def pair(ctx, train, test, n, fmt="csr", with_items=True):
    from irspack.split import UserTrainTestInteractionPair as Pair

    nu = len(train)
    users, items = ["u", 4, "w"][:nu], ["p", 2, "r", "q"][:n]
    A = ctx.sparse("a", train, n, fmt=fmt, lo=-4, hi=4)
    B = ctx.sparse("b", test, n, fmt=fmt, lo=-4, hi=4) if test is not None else None
    given = list(users)
    p = Pair(given, A, B, items if with_items else None)
    given[0] = "changed later"
    ctx.check("sizes", p.n_users == nu and p.n_items == n and list(p.user_ids) == users)
    ctx.all_eq("X_train", p.X_train, A)
    if B is not None:
        ctx.all_eq("X_test", p.X_test, B)
    else:
        ctx.all_eq("X_test", p.X_test, [[ctx.const(0)] * n for _ in range(nu)])
    a, b = ctx.dense(p.X_train), ctx.dense(p.X_test)
    ctx.all_eq("X_all", p.X_all, [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)])
    if with_items:
        verify_df(ctx, "df_train", p.df_train(), A, users, items)
        verify_df(ctx, "df_test", p.df_test(), p.X_test, users, items)
    else:
        ctx.raises("no item ids", RuntimeError, p.df_train)
        ctx.raises("no item ids", RuntimeError, p.df_test)
    ctx.reach("pair")


def concat(ctx, t1, s1, t2, s2, n, shared=False):
    from irspack.split import UserTrainTestInteractionPair as Pair

    m = [ctx.sparse(x, p, n, lo=-4, hi=4) if p is not None else None for x, p in zip("abcd", (t1, s1, t2, s2))]
    u1, u2 = ["x", 3, "y"][:len(t1)], (["x", 9] if shared else ["z", 9])[:len(t2)]
    p, q = Pair(u1, m[0], m[1]), Pair(u2, m[2], m[3])
    c = p.concat(q)
    ctx.check("user ids", list(c.user_ids) == u1 + u2)
    Z = lambda k: [[ctx.const(0)] * n for _ in range(k)]
    D = [ctx.dense(x) if x is not None else Z(k) for x, k in zip(m, (len(t1), len(t1), len(t2), len(t2)))]
    ctx.all_eq("train", c.X_train, D[0] + D[2])
    ctx.all_eq("test", c.X_test, D[1] + D[3])
    ctx.all_eq("all", c.X_all, [[x + y for x, y in zip(r, s)] for r, s in zip(D[0] + D[2], D[1] + D[3])])
    ctx.check("parts unchanged", list(p.user_ids) == u1 and list(q.user_ids) == u2 and p.n_users == len(u1))
    ctx.reach("concat")


def rejects(ctx):
    from irspack.split import UserTrainTestInteractionPair as Pair

    A = ctx.sparse("a", [[0], [1]], 3)
    B = ctx.sparse("b", [[0], [1]], 2)
    C = ctx.sparse("c", [[0]], 3)
    kind = ctx.choice("kind", ["users", "test cols", "test rows", "items", "concat"])
    if kind == "users":
        ctx.raises(kind, ValueError, lambda: Pair(["a"], A, None))
        ctx.raises(kind, ValueError, lambda: Pair(["a", "b", "c"], A, A))
    elif kind == "test cols":
        ctx.raises(kind, ValueError, lambda: Pair(["a", "b"], A, B))
    elif kind == "test rows":
        ctx.raises(kind, ValueError, lambda: Pair(["a", "b"], A, C))
    elif kind == "items":
        ctx.raises(kind, ValueError, lambda: Pair(["a", "b"], A, A, ["x", "y"]))
    else:
        ctx.raises(kind, ValueError, lambda: Pair(["a", "b"], A, A).concat(Pair(["a", "b"], B, B)))


P1, P2 = [[0, 2], [], [1, 3]], [[1], [0], [1, 2]]
HARNESSES = [
    H("pair", pair, [dict(train=P1, test=P2, n=4), dict(train=P1, test=P2, n=4, fmt="csc"), dict(train=P1, test=None, n=4),
                     dict(train=[[0, 1], [1]], test=[[2], []], n=3, with_items=False), dict(train=[[], []], test=[[0], []], n=2)]),
    H("concat", concat, [dict(t1=P1, s1=P2, t2=[[3], [0]], s2=[[0, 1], []], n=4), dict(t1=P1, s1=None, t2=[[3]], s2=[[1]], n=4),
                         dict(t1=[[0]], s1=[[1]], t2=[[1], []], s2=None, n=2), dict(t1=[[0], [1]], s1=[[1], []], t2=[[1]], s2=[[0]], n=2, shared=True)]),
    H("rejects", rejects, [dict()]),
]
for _h in HARNESSES:
    _h.tol = 1e-9
