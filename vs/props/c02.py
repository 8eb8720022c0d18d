import numpy as np
import pandas as pd

from ..ctx import H

ID = "C02"
MODULES = []
FUNCTIONS = ["irspack.split.split_last_n_interaction_df / irspack.split.time (on the real pandas)"]
BOUNDS = ("dataframes of up to 5 rows, up to 3 users (identities symbolic up to 4 rows, listed patterns for 5), arbitrary integer or "
          "real timestamps (ties included), every ratio in [0,1], n_heldout 0..4; 9 rows with 2 arbitrary timestamps; "
          "repeated index labels, extra columns")


def _col(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def frame(ctx, users, ts, index=None):
    n = len(users)
    d = {"x": list(range(100, 100 + n)), "user": users, "time": _col(ts) if ctx.symbolic else ts, "label": [f"r{i}" for i in range(n)]}
    if ctx.symbolic and any(not isinstance(u, (str, int)) for u in users):
        d["user"] = _col(users)
    return pd.DataFrame(d, index=index)


def verify(ctx, df, users, ts, first, last, count_ok):
    n = len(users)
    rows = {f"r{i}": i for i in range(n)}
    a, b = [rows.get(x) for x in first["label"]], [rows.get(x) for x in last["label"]]
    ctx.check("columns kept", list(first.columns) == list(df.columns) == list(last.columns))
    ctx.check("every row in exactly one part", sorted(a + b) == list(range(n)))
    if sorted(a + b) != list(range(n)):
        return
    for part, ii in ((first, a), (last, b)):
        for k, i in enumerate(ii):
            ctx.check(f"row {i} x", part["x"].iloc[k] == 100 + i)
            ctx.check(f"row {i} index", part.index[k] == df.index[i])
            ctx.check(f"row {i} user", part["user"].iloc[k] == users[i])
            ctx.check(f"row {i} time", part["time"].iloc[k] == ts[i])
    for i in range(n):
        same = [j for j in range(n) if bool(users[j] == users[i])]
        if min(same) != i:
            continue
        held = [j for j in same if j in b]
        count_ok(i, len(same), len(held))
        for j in held:
            for k in same:
                if k in a:
                    ctx.check(f"held-out row {j} not older than kept row {k}", ts[k] <= ts[j])


def run(ctx, users=None, n_rows=None, mode="ratio", ceil=False, n_held=(1,), real=False, index=None, fixed=None):
    from irspack.split import split_last_n_interaction_df

    if users is None:
        users = [ctx.key(f"u{i}", 0, 2) for i in range(n_rows)]
    n = len(users)
    ts = [(ctx.real if real else ctx.key)(f"t{i}", **(dict(lo=0, hi=64) if real else dict(lo=0, hi=64))) for i in range(n)]
    for k, v in (fixed or {}).items():
        ts[int(k)] = ctx.keyconst(v)
    df = frame(ctx, users, ts, index)
    before = [list(df[c]) for c in df.columns]
    if mode == "ratio":
        r = ctx.real("ratio", lo=0, hi=1)
        first, last = split_last_n_interaction_df(df, "user", "time", heldout_ratio=r, ceil_n_heldout=ceil)

        def ok(i, m, h):
            t = r * m
            ctx.check(f"count {i}", ctx.and_(h >= t, h < t + 1) if ceil else ctx.and_(h <= t, t < h + 1))
    else:
        k = ctx.choice("n_heldout", n_held)
        first, last = split_last_n_interaction_df(df, "user", "time", n_heldout=k, heldout_ratio=0.9)

        def ok(i, m, h):
            ctx.check(f"count {i}", h == min(k, m))
    verify(ctx, df, users, ts, first, last, ok)
    ctx.check("input dataframe unchanged", all(x is y or bool(x == y) for c, col in zip(df.columns, before) for x, y in zip(df[c], col)))
    ctx.reach("split")


F9 = {"0": 5, "1": 5, "2": 1, "4": 3, "5": 9, "6": 2, "8": 30}
U9 = ["a"] * 6 + ["c", "a", "a"]
U5 = ["b", "a", "b", "b", "a"]
HARNESSES = [
    H("split_ratio", run,
      [dict(users=["b", "a", "b", "b"], ceil=c) for c in (False, True)]
      + [dict(users=[7, 7, 7], ceil=c, real=True, index=[5, 5, 5]) for c in (False, True)]
      + [dict(n_rows=3, ceil=c) for c in (False, True)]
      + [dict(users=U9, ceil=c, fixed=F9) for c in (False, True)]
      + [dict(users=["z"]), dict(users=[])],
      [dict(users=U5, ceil=c) for c in (False, True)] + [dict(n_rows=4, ceil=True)]),
    H("split_n", run,
      [dict(users=["b", "a", "b", "b"], mode="n", n_held=[0, 1, 2, 4]), dict(n_rows=3, mode="n", n_held=[1, 2]),
       dict(users=[3, 3, 3], mode="n", n_held=[1, 2], real=True, index=[9, 9, 9]), dict(users=[], mode="n"),
       dict(users=U9, mode="n", n_held=[0, 1, 4, 7, 8, 20], fixed=F9)],
      [dict(users=U5, mode="n", n_held=[0, 1, 2, 3]), dict(n_rows=4, mode="n", n_held=[1, 2])]),
]
