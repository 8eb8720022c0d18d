import numpy as np

from ..ctx import H

ID = "C07"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.utils.id_mapping.ItemIDMapper / IDMapper (all methods)", "irspack.recommenders.base.BaseRecommender masking",
             "util.hpp retrieve_recommend_from_score (compiled from source; worker threads under the symbolic scheduler)"]
BOUNDS = ("up to 4 items (5 in thorough) and 3 users with arbitrary real scores, up to 12 items with 2-3 arbitrary scores among constants (any subset equal or -inf), every allowed / forbidden "
          "subset listed, cutoff 0..n+1, 1..2 threads with all schedules of at most 2 scheduling delays")

ITEMS = ["a", 7, "c", (1, 2), "e", "f", 0, "g", "", "i", -1, "k"]
NEG = float("-inf")


def ids(n):
    return ITEMS[:n]


def verify(ctx, label, got, score, item_ids, cutoff, allowed=None, forbidden=None):
    """got: list of (id, score); score: effective scores per item"""
    n = len(item_ids)
    ok_shape = isinstance(got, list) and all(len(t) == 2 for t in got)
    ctx.check(f"{label} format", ok_shape)
    if not ok_shape:
        return
    pos = {x: i for i, x in enumerate(item_ids)}
    elig = [i for i in range(n) if (allowed is None or item_ids[i] in allowed)
            and (forbidden is None or item_ids[i] not in forbidden)
            and not (isinstance(score[i], float) and score[i] == NEG)]
    names = [t[0] for t in got]
    ctx.check(f"{label} known ids", all(x in pos for x in names))
    if not all(x in pos for x in names):
        return
    idx = [pos[x] for x in names]
    ctx.check(f"{label} no duplicates", len(set(idx)) == len(idx))
    ctx.check(f"{label} only eligible items", set(idx) <= set(elig))
    ctx.check(f"{label} length", len(idx) == min(max(cutoff, 0), len(elig)))
    if not set(idx) <= set(elig):
        return
    for k, (i, t) in enumerate(zip(idx, got)):
        ctx.eq(f"{label} score {k}", t[1], score[i])
        if k:
            ctx.le(f"{label} descending {k}", score[i], score[idx[k - 1]])
    if idx:
        for i in elig:
            if i not in idx:
                ctx.le(f"{label} best items kept", score[i], score[idx[-1]])


def _scores(ctx, n_users, n_items, neg, fixed=None):
    """arbitrary scores; fixed: positions (of every user) that hold the given constants instead"""
    fixed = {int(k): v for k, v in (fixed or {}).items()}
    return [[NEG if [u, i] in neg else ctx.const(fixed[i]) if i in fixed else ctx.real(f"s{u}_{i}", lo=-8, hi=8)
             for i in range(n_items)] for u in range(n_users)]


def single(ctx, n, neg, cutoffs, allowed=None, forbidden=None, fixed=None):
    from irspack.utils import ItemIDMapper

    item_ids = ids(n)
    s = _scores(ctx, 1, n, neg, fixed)[0]
    c = ctx.choice("cutoff", cutoffs)
    arr = ctx.asarray(s)
    got = ItemIDMapper(item_ids).score_to_recommended_items(arr, c, allowed_item_ids=allowed, forbidden_item_ids=forbidden)
    verify(ctx, "single", got, s, item_ids, c, allowed, forbidden)
    for i in range(n):
        ctx.eq(f"input {i}", arr[i], s[i])


def batch(ctx, nu, n, neg, cutoffs, threads, allowed=None, per_user=None, forbidden=None, dtype="float64", fixed=None):
    from irspack.utils import ItemIDMapper

    item_ids = ids(n)
    s = _scores(ctx, nu, n, neg, fixed)
    c = ctx.choice("cutoff", cutoffs)
    arr = ctx.asarray(s, (nu, n))
    if dtype == "float32":
        arr = arr.astype(np.float32)
    got = ItemIDMapper(item_ids).score_to_recommended_items_batch(
        arr, c, allowed_item_ids=allowed, per_user_allowed_item_ids=per_user, forbidden_item_ids=forbidden, n_threads=threads)
    ctx.check("one list per user", len(got) == nu)
    for u in range(min(nu, len(got))):
        al = per_user[u] if per_user is not None else allowed
        verify(ctx, f"user {u}", got[u], s[u], item_ids, c, al, forbidden[u] if forbidden is not None else None)
    for u in range(nu):
        for i in range(n):
            ctx.eq(f"input {u},{i}", arr[u, i], s[u][i])


def _rec(ctx, train, n, rows, cold=None):
    from irspack.recommenders.base import BaseRecommender

    class Arbitrary(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, user_indices):
            return ctx.asarray([rows[int(u)] for u in user_indices], (len(user_indices), n))

        def get_score_cold_user(self, X):
            self.seen_X = X
            return ctx.asarray([cold[k] for k in range(X.shape[0])], (X.shape[0], n))

    return Arbitrary(ctx.sparse("x", train, n, values=1.0)).learn()


def known(ctx, train, n, cutoffs, order, allowed=None, forbidden=None, per_user=None):
    """recommendations of known users, one by one and in a batch"""
    from irspack.utils import IDMapper

    nu = len(train)
    item_ids, user_ids = ids(n), ["u2", 5, "x"][:nu]
    rows = _scores(ctx, nu, n, [])
    rec = _rec(ctx, train, n, rows)
    m = IDMapper(user_ids, item_ids)
    c = ctx.choice("cutoff", cutoffs)
    eff = [[NEG if i in train[u] else rows[u][i] for i in range(n)] for u in range(nu)]
    if per_user is None:
        u = ctx.pick("user", nu)
        got = m.recommend_for_known_user_id(rec, user_ids[u], cutoff=c, allowed_item_ids=allowed, forbidden_item_ids=forbidden)
        verify(ctx, "one user", got, eff[u], item_ids, c, allowed, forbidden)
    got = m.recommend_for_known_user_batch(
        rec, [user_ids[u] for u in order], cutoff=c, allowed_item_ids=allowed,
        per_user_allowed_item_ids=per_user, forbidden_item_ids=[forbidden] * len(order) if forbidden is not None else None,
        n_threads=1)
    ctx.check("one list per user", len(got) == len(order))
    for k, u in enumerate(order[:len(got)]):
        verify(ctx, f"batch {k}", got[k], eff[u], item_ids, c, per_user[k] if per_user is not None else allowed, forbidden)


def new_user(ctx, n, profiles, cutoffs, allowed=None, forbidden=None):
    """recommendations of unknown users from id lists or id -> rating dicts; unknown ids are ignored"""
    from irspack.utils import ItemIDMapper

    item_ids = ids(n)
    pos = {x: i for i, x in enumerate(item_ids)}
    profs, vals = [], []
    for k, p in enumerate(profiles):
        if isinstance(p, dict):
            d = {}
            for x in p:
                d[x] = ctx.real(f"r{k}_{x}", pos=True)
            profs.append(d)
            vals.append({pos[x]: v for x, v in d.items() if x in pos})
        else:
            profs.append(list(p))
            vals.append({pos[x]: ctx.const(p.count(x)) for x in p if x in pos})
    cold = _scores(ctx, len(profs), n, [])
    rec = _rec(ctx, [[0]], n, _scores(ctx, 1, n, []), cold)
    m = ItemIDMapper(item_ids)
    c = ctx.choice("cutoff", cutoffs)
    eff = [[NEG if i in vals[u] else cold[u][i] for i in range(n)] for u in range(len(profs))]
    M = m.list_of_user_profile_to_matrix(profs)
    ctx.check("profile matrix shape", tuple(M.shape) == (len(profs), n))
    d = ctx.dense(M)
    for u in range(len(profs)):
        for i in range(n):
            ctx.eq(f"profile[{u},{i}]", d[u][i], vals[u].get(i, 0))
    got = m.recommend_for_new_user_batch(rec, profs, cutoff=c, allowed_item_ids=allowed, n_threads=1,
                                         forbidden_item_ids=[forbidden] * len(profs) if forbidden is not None else None)
    ctx.check("one list per profile", len(got) == len(profs))
    for u in range(min(len(got), len(profs))):
        verify(ctx, f"batch {u}", got[u], eff[u], item_ids, c, allowed, forbidden)
    x = ctx.dense(rec.seen_X)
    for u in range(len(profs)):
        for i in range(n):
            ctx.eq(f"scored profile[{u},{i}]", x[u][i], vals[u].get(i, 0))
    got = m.recommend_for_new_user(rec, profs[0], cutoff=c, allowed_item_ids=allowed, forbidden_item_ids=forbidden)
    verify(ctx, "one", got, eff[0], item_ids, c, allowed, forbidden)
    x = ctx.dense(rec.seen_X)
    for i in range(n):
        ctx.eq(f"scored profile[{i}]", x[0][i], vals[0].get(i, 0))


def rejects(ctx):
    from irspack.utils import IDMapper, ItemIDMapper

    kind = ctx.choice("kind", ["dup item", "dup user", "n_items", "n_users", "unknown user", "score", "batch score", "no threads"])
    rows = _scores(ctx, 2, 3, [])
    rec = _rec(ctx, [[0], [1]], 3, rows, rows)
    E = (ValueError, RuntimeError, KeyError, AssertionError)
    if kind == "dup item":
        ctx.raises(kind, ValueError, lambda: ItemIDMapper(["a", "b", "a"]))
    elif kind == "dup user":
        ctx.raises(kind, ValueError, lambda: IDMapper(["a", "a"], ["x", "y"]))
    elif kind == "n_items":
        ctx.raises(kind, ValueError, lambda: ItemIDMapper(ids(4)).recommend_for_new_user(rec, ["a"]))
        ctx.raises(kind, ValueError, lambda: ItemIDMapper(ids(2)).recommend_for_new_user_batch(rec, [["a"]], n_threads=1))
    elif kind == "n_users":
        ctx.raises(kind, ValueError, lambda: IDMapper([1, 2, 3], ids(3)).recommend_for_known_user_id(rec, 1))
        ctx.raises(kind, ValueError, lambda: IDMapper([1], ids(3)).recommend_for_known_user_batch(rec, [1], n_threads=1))
    elif kind == "unknown user":
        ctx.raises(kind, E, lambda: IDMapper([1, 2], ids(3)).recommend_for_known_user_id(rec, 9))
        ctx.raises(kind, E, lambda: IDMapper([1, 2], ids(3)).recommend_for_known_user_batch(rec, [1, 9], n_threads=1))
    elif kind == "score":
        ctx.raises(kind, ValueError, lambda: ItemIDMapper(ids(2)).score_to_recommended_items(ctx.asarray(rows[0]), 2))
    elif kind == "batch score":
        ctx.raises(kind, ValueError,
                   lambda: ItemIDMapper(ids(4)).score_to_recommended_items_batch(ctx.asarray(rows, (2, 3)), 2, n_threads=1))
    else:
        ctx.raises(kind, E, lambda: ItemIDMapper(ids(3)).score_to_recommended_items_batch(ctx.asarray(rows, (2, 3)), 2, n_threads=0))


C4 = [0, 1, 2, 3, 5]
F8 = {"0": -2, "2": -1, "3": 0, "5": 1, "6": 2}
F12 = {"0": 1, "1": 5, "2": 2, "3": 5, "4": 7, "6": 0, "7": -3, "8": 4, "10": 1, "11": 3}
HARNESSES = [
    H("single", single,
      [dict(n=4, neg=[], cutoffs=C4), dict(n=4, neg=[[0, 1], [0, 3]], cutoffs=C4),
       dict(n=4, neg=[[0, 0]], cutoffs=C4, allowed=["c", "a", "zz"]), dict(n=4, neg=[], cutoffs=C4, forbidden=[7, "q"]),
       dict(n=4, neg=[[0, 2]], cutoffs=C4, allowed=["e", "c", "a", 7], forbidden=["a"]),
       dict(n=3, neg=[], cutoffs=[1, 2], allowed=["c", "a", "c"]), dict(n=3, neg=[], cutoffs=[2], allowed=[]),
       dict(n=3, neg=[[0, 0], [0, 1], [0, 2]], cutoffs=[1, 4]),
       dict(n=8, neg=[], cutoffs=[2, 5, 8, 9], fixed=F8), dict(n=12, neg=[[0, 5]], cutoffs=[3, 8, 12, 20], fixed=F12)],
      [dict(n=5, neg=[], cutoffs=[0, 1, 3, 5])]),
    H("batch", batch,
      [dict(nu=1, n=4, neg=[[0, 2]], cutoffs=C4, threads=1), dict(nu=1, n=4, neg=[], cutoffs=[2, 3], threads=1, dtype="float32"),
       dict(nu=1, n=8, neg=[], cutoffs=[2, 5, 8, 9], threads=1, fixed=F8),
       dict(nu=1, n=12, neg=[[0, 5]], cutoffs=[3, 8, 12, 20], threads=1, fixed=F12),
       dict(nu=2, n=3, neg=[[1, 0]], cutoffs=[1, 2], threads=2), dict(nu=1, n=3, neg=[], cutoffs=[2], threads=3),
       dict(nu=2, n=3, neg=[], cutoffs=[1, 2], threads=1, allowed=["c", "a", "zz"]),
       dict(nu=2, n=3, neg=[], cutoffs=[2], threads=1, per_user=[["c", "a", "q"], [7]]),
       dict(nu=2, n=3, neg=[], cutoffs=[2], threads=1, per_user=[["c", "a"], []]),
       dict(nu=1, n=3, neg=[], cutoffs=[2], threads=1, allowed=[]),
       dict(nu=1, n=4, neg=[], cutoffs=[2], threads=1, allowed=["c", "a", "c", "a"]),
       dict(nu=2, n=3, neg=[], cutoffs=[3], threads=1, forbidden=[["c", "zz"], []]),
       dict(nu=1, n=3, neg=[], cutoffs=[2], threads=1, forbidden=[["c"]]),
       dict(nu=2, n=3, neg=[], cutoffs=[3], threads=1, allowed=["c", "a"], per_user=[["c", "a"], [7, "c"]], forbidden=[["c"], ["a"]])],
      [dict(nu=3, n=3, neg=[], cutoffs=[2], threads=2), dict(nu=1, n=5, neg=[], cutoffs=[0, 1, 3, 5], threads=1)]),
    H("known", known,
      [dict(train=[[0], [1, 2]], n=4, cutoffs=[1, 2, 4], order=[1, 0]),
       dict(train=[[0], [], [1]], n=3, cutoffs=[2], order=[2, 0], allowed=["a", "c", 7], forbidden=["c"]),
       dict(train=[[0], [], [1]], n=3, cutoffs=[2], order=[2, 1], per_user=[["a", 7], ["c"]])]),
    H("new_user", new_user,
      [dict(n=4, profiles=[["c", "nope", "a"], {"a": 0, "zz": 0}], cutoffs=[1, 3]),
       dict(n=3, profiles=[{"a": 0, "c": 0}, []], cutoffs=[2], allowed=["a", 7]),
       dict(n=3, profiles=[["q"], ["a"]], cutoffs=[2, 3], forbidden=[7]),
       dict(n=3, profiles=[["c", "a", "c"]], cutoffs=[2])]),
    H("rejects", rejects, [dict()]),
]
