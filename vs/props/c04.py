import numpy as np
import pandas as pd

from ..ctx import H
from .c02 import _col

ID = "C04"
MODULES = []
FUNCTIONS = ["irspack.split.holdout_specific_interactions, UserTrainTestInteractionPair, irspack.split.userwise._split_list"]
BOUNDS = ("event logs of up to 4 users, 4 items and 7 events (repeated events included); every subset of events (of listed sizes) or an "
          "arbitrary boolean mask as indicator; arbitrary validation / test ratios in [0,1]; every outcome of the user shuffles")
EPS = 1e-9


def hold(ctx, log, mask="sym", form="bool", ratios="sym", n_sym=None):
    from irspack.split import holdout_specific_interactions

    n = len(log)
    users, items = [u for u, _ in log], [i for _, i in log]
    if mask == "sym":
        m = [bool(ctx.pick(f"m{k}", 2)) for k in range(n)]
    elif mask == "some":
        m = [k % 2 == 0 if k >= n_sym else bool(ctx.pick(f"m{k}", 2)) for k in range(n)]
    else:
        m = [k in mask for k in range(n)]
    df = pd.DataFrame(dict(z=[0] * n, u=users, i=items), index=[7] * n)
    ind = np.array(m, dtype=bool) if form == "bool" else np.array([k for k in range(n) if m[k]], dtype=np.int64)
    if form == "nonzero":
        ind = (ind,)
    if ratios == "sym":
        rv, rt = ctx.real("val", lo=0, hi=1), ctx.real("test", lo=0, hi=1)
    else:
        rv, rt = ratios
    args = (df, "u", "i", ind, rv, rt)
    run = lambda: holdout_specific_interactions(*args, random_state=ctx.rng())
    if bool(rv + rt > 1):
        if bool(rv + rt > 1 + 1e-6):
            ctx.raises("ratios above one", ValueError, run)
        return
    item_ids, data = run()
    item_ids = list(item_ids)
    ctx.check("item ids", sorted(item_ids, key=str) == sorted(set(items), key=str))
    gu = {k: list(v.user_ids) for k, v in data.items()}
    ctx.check("parts", set(data) == {"train", "val", "test"})
    allu = sorted(set(users))
    ctx.check("users partitioned", sorted(sum(gu.values(), [])) == allu)
    able = {users[k] for k in range(n) if m[k]}
    ctx.check("only users with a selected event are held out", set(gu["val"]) | set(gu["test"]) <= able)
    nv = len(able)
    n_train, n_val, n_test = nv - len(gu["val"]) - len(gu["test"]), len(gu["val"]), len(gu["test"])

    def near(label, c, target, w):
        ctx.check(label, ctx.and_(c - target < w + EPS, target - c < w + EPS))

    near("training share", n_train, (1 - rv - rt) * nv, 1)
    near("validation share", n_val, rv * nv, 1)
    near("test share", n_test, rt * nv, 2)
    for part, pair in data.items():
        shape = (len(gu[part]), len(item_ids))
        ok = tuple(pair.X_train.shape) == shape and tuple(pair.X_test.shape) == shape
        ctx.check(f"{part} shape", ok)
        if not ok:
            continue
        tr, te = ctx.dense(pair.X_train), ctx.dense(pair.X_test)
        for a, u in enumerate(gu[part]):
            for b, i in enumerate(item_ids):
                learn = sum(1 for k in range(n) if users[k] == u and items[k] == i and (part == "train" or not m[k]))
                pred = sum(1 for k in range(n) if users[k] == u and items[k] == i and part != "train" and m[k])
                ctx.eq(f"{part} {u} {i} learn", tr[a][b], learn)
                ctx.eq(f"{part} {u} {i} predict", te[a][b], pred)
    ctx.check("input kept", list(df.columns) == ["z", "u", "i"] and len(df) == n)
    ctx.reach("hold")


L4 = [["b", 3], ["a", 1], ["b", 1], ["c", 2], ["d", 1], ["a", 1], ["b", 3]]
L3 = [[5, "x"], [9, "y"], [5, "y"], [9, "x"], [7, "z"]]
HARNESSES = [
    H("hold", hold,
      [dict(log=L4, mask=[0, 1, 3, 4]), dict(log=L4, mask=[0, 2, 5, 3], form="index"), dict(log=L4, mask=[], form="index"),
       dict(log=L3, mask=[0, 4], form="nonzero"), dict(log=L3, mask=[0, 1, 2, 3, 4])]
      + [dict(log=L3, ratios=[a, b]) for a, b in ((0.5, 0.5), (0.2, 0.2), (0.0, 0.0), (0.0, 1.0), (0.4, 0.0))],
      [dict(log=L4, ratios=[0.25, 0.5]), dict(log=L3)]),
]
