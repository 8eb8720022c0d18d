import pandas as pd

from ..ctx import H
from .c02 import _col

ID = "C03"
MODULES = ["_util_cpp"]
FUNCTIONS = ["irspack.split.split_dataframe_partial_user_holdout, split_train_test_userwise_random / _time, UserTrainTestInteractionPair",
             "irspack.utils.df_to_sparse, rowwise_train_test_split; util.hpp SplitFunction (compiled from source)"]
NARROW = True
BOUNDS = ("event logs of up to 4 users, 4 items and 8 events (repeated events included); arbitrary ratings and timestamps; user counts or "
          "arbitrary user ratios in [0,1]; arbitrary held-out ratios or counts; every outcome of the user shuffle (the row shuffles are "
          "fixed in the cases that explore the user shuffle, and the other way round)")


def split(ctx, log, by="count", n_val=None, n_test=None, held="ratio", ceil=False, time=False, rating=False, kw=None):
    """log: list of [user, item]"""
    from irspack.split import split_dataframe_partial_user_holdout

    n = len(log)
    users = [u for u, _ in log]
    items = [i for _, i in log]
    d = {"i": items, "note": ["x"] * n, "u": users}
    r = [ctx.real(f"r{k}", pos=True, hi=16) for k in range(n)] if rating else [ctx.const(1)] * n
    if rating:
        d["rating"] = _col(r) if ctx.symbolic else r
    ts = None
    if time:
        ts = [ctx.key(f"t{k}", 0, 32) for k in range(n)]
        d["t"] = _col(ts) if ctx.symbolic else ts
    df = pd.DataFrame(d, index=[3] * n)
    args = dict(random_state=ctx.rng(), ceil_n_heldout=ceil)
    if rating:
        args["rating_column"] = "rating"
    if time:
        args["time_column"] = "t"
    all_users = sorted(set(users))
    N = len(all_users)
    if by == "count":
        args.update(n_val_user=n_val, n_test_user=n_test)
        want_val, want_test = n_val, n_test
    else:
        rv, rt = ctx.real("val_ratio", lo=0, hi=1), ctx.real("test_ratio", lo=0, hi=1)
        args.update(val_user_ratio=rv, test_user_ratio=rt)
        want_val = next(k for k in range(N, -1, -1) if k == 0 or bool(rv * N >= k))
        want_test = next(k for k in range(N, -1, -1) if k == 0 or bool(rt * N >= k))
    if held == "ratio":
        held = [None, None]
    if None in held:
        hv = ctx.real("held_val", lo=0, hi=1)
        ht = ctx.real("held_test", lo=0, hi=1)
        args.update(heldout_ratio_val=hv, heldout_ratio_test=ht)
    args.update(n_heldout_val=held[0], n_heldout_test=held[1])
    args.update(kw or {})
    run = lambda: split_dataframe_partial_user_holdout(df, "u", "i", **args)
    if want_val + want_test > N:
        ctx.raises("too many held-out users", ValueError, run)
        return
    data, item_ids = run()
    item_ids = list(item_ids)
    ctx.check("item ids", sorted(item_ids, key=str) == sorted(set(items), key=str))
    ctx.check("parts", set(data) == {"train", "val", "test"})
    got_users = {k: list(v.user_ids) for k, v in data.items()}
    ctx.check("users partitioned", sorted(sum(got_users.values(), [])) == all_users)
    ctx.check("number of validation users", len(got_users["val"]) == want_val)
    ctx.check("number of test users", len(got_users["test"]) == want_test)
    first = {}
    for k, ui in enumerate(log):
        first.setdefault(tuple(ui), k)
    for part, pair in data.items():
        shape = (len(got_users[part]), len(item_ids))
        ctx.check(f"{part} shape", tuple(pair.X_train.shape) == shape and tuple(pair.X_test.shape) == shape
                  and pair.n_users == shape[0] and pair.n_items == shape[1])
        if tuple(pair.X_train.shape) != shape or tuple(pair.X_test.shape) != shape:
            continue
        tr, te = ctx.entries(pair.X_train), ctx.entries(pair.X_test)
        al = ctx.dense(pair.X_all)
        for a, u in enumerate(got_users[part]):
            mine = {b: first[u, i] for b, i in enumerate(item_ids) if (u, i) in first}
            rtr, rte = {c for (x, c) in tr if x == a}, {c for (x, c) in te if x == a}
            ctx.check(f"{part} {u} each interaction once", not (rtr & rte) and (rtr | rte) == set(mine))
            for b in range(len(item_ids)):
                ctx.eq(f"{part} {u} all {b}", al[a][b], r[mine[b]] if b in mine else 0)
            for b, k in mine.items():
                v = tr.get((a, b), te.get((a, b)))
                if v is not None:
                    ctx.eq(f"{part} {u} value {item_ids[b]}", v, r[k])
            h = len(rte)
            if part == "train":
                ctx.check(f"train {u} nothing held out", h == 0)
                continue
            m = len(mine)
            if held[0 if part == "val" else 1] is None:
                t = (hv if part == "val" else ht) * m
                ctx.check(f"{part} {u} held-out count", ctx.and_(h >= t, h < t + 1) if ceil else ctx.and_(h <= t, t < h + 1))
            else:
                ctx.check(f"{part} {u} held-out count", h == min(m, held[0] if part == "val" else held[1]))
            if time and (rtr | rte) == set(mine):
                for b in rte:
                    for c in rtr:
                        ctx.check(f"{part} {u} held-out item {b} is recent", ts[mine[c]] <= ts[mine[b]])
    ctx.check("input kept", list(df.columns) == list(d) and len(df) == n)
    ctx.reach("split")


def partial(ctx):
    """the number of users is independent of the unused ratio"""
    split(ctx, L4, n_val=1, n_test=1, held=[1, 1], kw=dict(val_user_ratio=0.0, test_user_ratio=0.0))


def rejects(ctx):
    from irspack.split import split_dataframe_partial_user_holdout

    df = pd.DataFrame(dict(u=[1, 2, 3], i=[1, 2, 3]))
    a, b = ctx.pick("val", 5), ctx.pick("test", 5)
    if a + b > 3:
        ctx.raises("too many users", ValueError, lambda: split_dataframe_partial_user_holdout(
            df, "u", "i", n_val_user=a, n_test_user=b, random_state=ctx.rng()))
        if a > 3:
            ctx.raises("too many users", ValueError, lambda: split_dataframe_partial_user_holdout(
                df, "u", "i", n_val_user=a, random_state=ctx.rng()))


L4 = [["a", 1], ["b", 1], ["a", 2], ["c", 3], ["a", 1], ["d", 1], ["b", 4], ["b", 3]]
L3 = [[5, "x"], [9, "y"], [5, "y"], [9, "x"], [7, "z"], [5, "z"]]
L2 = [["a", 1], ["a", 2], ["a", 3], ["b", 2], ["b", 1]]
HARNESSES = [
    H("users", split,
      [dict(log=L4, n_val=a, n_test=b, held=[1, 1]) for a, b in ((1, 1), (2, 1), (0, 2), (2, 0), (2, 2))]
      + [dict(log=L3, by="ratio", held=[1, 2], rating=True)],
      [dict(log=L4, by="ratio", held=[1, 1])], fixed=["shuffle"]),
    H("unused_ratio", partial, [dict()], fixed=["shuffle"]),
    H("held_out", split,
      [dict(log=L2, n_val=a, n_test=1 - a, ceil=c, rating=True) for a in (0, 1) for c in (True, False)]
      + [dict(log=L2, n_val=1, n_test=1, held=[a, b]) for a, b in ((0, 2), (5, 1), (1, None), (None, 1), (0, None), (None, 0))]),
    H("time", split,
      [dict(log=L2, n_val=1, n_test=1, held=[1, 2], time=True, rating=True), dict(log=L2, n_val=1, n_test=1, held=[1, None], time=True),
       dict(log=L2, n_val=1, n_test=1, held=[None, 0], time=True, ceil=True),
       dict(log=L2, n_val=1, n_test=0, ceil=True, time=True), dict(log=L2, n_val=0, n_test=1, time=True, rating=True)],
      [dict(log=L3, n_val=1, n_test=1, time=True, ceil=True)]),
    H("rejects", rejects, [dict()]),
]
for _h in HARNESSES:
    _h.tol = 1e-9
