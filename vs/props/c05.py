import numpy as np
import pandas as pd

from ..ctx import H
from .c02 import _col

ID = "C05"
MODULES = []
FUNCTIONS = ["irspack.utils.df_to_sparse (on the real pandas)"]
NARROW = True
BOUNDS = ("tables of up to 4 rows with symbolic user and item ids (3 rows in full generality), listed patterns up to 6 rows; arbitrary real "
          "ratings; ids given (any order, with ids that never occur, with occurring ids left out) or inferred; repeated pairs, empty tables; 150 ids")


def convert(ctx, users=None, items=None, n=None, rating=True, user_ids=None, item_ids=None, as_array=False, index=None, nsym=99):
    from irspack.utils import df_to_sparse

    if users is None:
        users = [ctx.key(f"u{k}", 0, 3) for k in range(n)]
        user_ids = [ctx.keyconst(k) for k in user_ids] if user_ids is not None else None
    if items is None:
        items = [ctx.key(f"i{k}", 0, 3) for k in range(n)]
        item_ids = [ctx.keyconst(k) for k in item_ids] if item_ids is not None else None
    n = len(users)
    r = [ctx.real(f"r{k}", lo=-8, hi=8) if n - k <= nsym else ctx.const(k % 5 + 1) for k in range(n)] if rating else [ctx.const(1)] * n
    d = {"r": _col(r) if ctx.symbolic else r}
    for name, v in (("uu", users), ("ii", items)):
        d[name] = _col(v) if ctx.symbolic and any(not isinstance(x, (int, str)) for x in v) else v
    df = pd.DataFrame(d, index=index)
    kw = dict(rating_column="r") if rating else {}
    arr = (lambda x: np.array(x)) if as_array else (lambda x: x)
    if user_ids is not None:
        kw["user_ids"] = arr(user_ids)
    if item_ids is not None:
        kw["item_ids"] = arr(item_ids)
    X, uids, iids = df_to_sparse(df, "uu", "ii", **kw)
    uids, iids = list(uids), list(iids)
    for name, got, given, col in (("user", uids, user_ids, users), ("item", iids, item_ids, items)):
        if given is not None:
            ctx.check(f"{name} ids as given", len(got) == len(given) and all(bool(a == b) for a, b in zip(got, given)))
        else:
            kept = [k for k in range(n) if (user_ids is None or any(bool(users[k] == x) for x in user_ids))
                    and (item_ids is None or any(bool(items[k] == x) for x in item_ids))]
            ctx.check(f"{name} ids unique", not any(bool(a == b) for k, a in enumerate(got) for b in got[:k]))
            ctx.check(f"{name} ids occur", all(any(bool(a == col[k]) for k in kept) for a in got))
            ctx.check(f"{name} ids complete", all(any(bool(a == col[k]) for a in got) for k in kept))
    ctx.check("shape", tuple(X.shape) == (len(uids), len(iids)))
    D = ctx.dense(X)
    for a in range(len(uids)):
        for b in range(len(iids)):
            want = ctx.const(0)
            for k in range(n):
                if bool(users[k] == uids[a]) and bool(items[k] == iids[b]):
                    want = want + r[k]
            ctx.eq(f"[{uids[a]},{iids[b]}]", D[a][b], want)
    ctx.check("input kept", list(df.columns) == list(d) and len(df) == n)
    ctx.reach("convert")


def many(ctx, n, side):
    """more ids than fit in a byte"""
    ids = [f"id{(7 * k) % n:03d}" for k in range(n)]
    few = [k % 2 for k in range(n)]
    convert(ctx, nsym=2, **(dict(users=ids, items=few) if side == "user" else dict(users=few, items=ids)))


U6, I6 = ["b", "a", "b", "c", "a", "b"], [3, 1, 1, 7, 1, 3]
HARNESSES = [
    H("convert", convert,
      [dict(users=U6, items=I6), dict(users=U6, items=I6, rating=False, index=[1] * 6),
       dict(users=U6, items=I6, user_ids=["c", "zz", "b"]), dict(users=U6, items=I6, item_ids=[7, 3, 9, 1]),
       dict(users=U6, items=I6, user_ids=["c", "b"], item_ids=[7, 3], rating=False, index=[5, 4, 3, 2, 1, 0]),
       dict(users=U6, items=I6, user_ids=["c", "a", "b"], item_ids=[3, 9, 1], as_array=True),
       dict(users=U6, items=I6, user_ids=["q"], item_ids=[7]), dict(users=["x"], items=["x"]),
       dict(users=U6, items=I6, user_ids=[]), dict(users=U6, items=I6, item_ids=[], rating=False),
       dict(n=3), dict(n=3, users=U6[:3], rating=False), dict(n=2, user_ids=[2, 0]),
       dict(n=2, item_ids=[3, 1], rating=False), dict(n=2, user_ids=[3, 0, 1], item_ids=[1, 2])],
      [dict(n=4, users=["b", "a", "b", "b"]), dict(n=4, items=[1, 1, 2, 2], user_ids=[2, 3]), dict(n=3, user_ids=[3, 0, 1], item_ids=[1, 2])]),
]
HARNESSES.append(H("many", many, [dict(n=150, side="user"), dict(n=150, side="item")], [dict(n=300, side="user"), dict(n=300, side="item")]))
for _h in HARNESSES:
    _h.tol = 1e-9
