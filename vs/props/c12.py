import pandas as pd

from ..ctx import H
from .c02 import _col
from .evalref import compare, metrics

ID = "C12"
MODULES = ["_core_evaluator"]
FUNCTIONS = ["irspack.evaluation.evaluate_recommendation_df", "evaluator.cpp evaluate_list_vs_list, Metrics (compiled from source)"]
BOUNDS = ("recommendation tables of up to 7 rows and ground truth tables of up to 6 rows over up to 3 users and 5 items; ids symbolic "
          "(every coincidence pattern) for up to 2+2 / 3+1 rows; interleaved users, users in only one table, repeated ground truth rows; "
          "lists of 25 items and 14 users at fixed values; 1..3 threads, schedules with at most 2 scheduling delays; no item repeated within a user's list")


def evaluate(ctx, rec=None, gt=None, n_rec=0, n_gt=0, sym_users=False, threads=1, cols=("user", "item"), extra=True, index="same"):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df

    if rec is None:
        mk = lambda p, k: [ctx.key(f"{p}u{k}", 0, 2) if sym_users else ctx.keyconst(0), ctx.key(f"{p}i{k}", 0, 4)]
        rec = [mk("r", k) for k in range(n_rec)]
        gt = [mk("g", k) for k in range(n_gt)]
        for k in range(n_rec):
            for j in range(k):
                ctx.assume(ctx.or_(rec[k][0] != rec[j][0], rec[k][1] != rec[j][1]))
    U, I = cols

    def table(rows, name):
        d = {}
        for c, ix in ((I, 1), (U, 0)):
            v = [r[ix] for r in rows]
            d[c] = _col(v) if ctx.symbolic and v and not isinstance(v[0], (int, str)) else v
        if extra:
            d["score"] = [0.5 + (k * 5) % 7 for k in range(len(rows))]
            d["rating"] = [1 + k for k in range(len(rows))]
        return pd.DataFrame(d, index=[4] * len(rows) if index == "same" else range(len(rows), 0, -1) if index == "down" else None)

    def canon(pool, x):
        for k, y in enumerate(pool):
            if bool(y == x):
                return k
        pool.append(x)
        return len(pool) - 1

    df_r, df_g = table(rec, "r"), table(gt, "g")
    got = evaluate_recommendation_df(df_r, df_g, U, I, n_threads=threads)
    users, items = [], []
    R = [(canon(users, u), i) for u, i in rec]
    G = [(canon(users, u), i) for u, i in gt]
    both = sorted({u for u, _ in R} & {u for u, _ in G})
    R = [(u, canon(items, i)) for u, i in R if u in both]
    G = [(u, canon(items, i)) for u, i in G if u in both]
    ref = metrics(ctx, [[i for v, i in R if v == u] for u in both], [{i for v, i in G if v == u} for u in both], len(items))
    compare(ctx, "", got, ref)
    ctx.check("tables kept", len(df_r) == len(rec) and len(df_g) == len(gt))
    ctx.reach("evaluate")


R1 = [["b", 1], ["a", 5], ["b", 4], ["a", 2], ["c", 1], ["b", 2], ["a", 1]]
G1 = [["a", 1], ["z", 9], ["b", 2], ["b", 3], ["a", 1], ["a", 5]]
R2, G2 = [[3, "x"], [3, "y"], [1, "z"]], [[1, "q"], [3, "x"], [3, "w"]]
# longer lists, and many users
R3 = [["u", k * 7 % 26] for k in range(25)] + [["v", k * 3 % 26] for k in range(22)] + [[f"w{k}", k] for k in range(12)]
G3 = [["u", k] for k in (3, 4, 9, 20, 21, 22, 30, 31)] + [["v", k] for k in (1, 5, 25, 40)] + [[f"w{k}", k + k % 2] for k in range(12)] + [["x", 1]]
HARNESSES = [
    H("evaluate", evaluate,
      [dict(rec=R1, gt=G1, threads=t) for t in (1, 2)] + [dict(rec=[[0, 2], [0, 1]], gt=[[0, 1], [0, 3]], threads=3)] + [dict(rec=R2, gt=G2, threads=t) for t in (1, 3)]
      + [dict(rec=R1, gt=G1[:2]), dict(rec=R1[4:5], gt=G1), dict(rec=R2, gt=[[7, "x"]]), dict(rec=[], gt=[])]
      + [dict(rec=R1, gt=G1, index="down"), dict(rec=R2, gt=G2, index="range"), dict(rec=R3, gt=G3, index="down"), dict(n_rec=3, n_gt=1, index="down")]
      + [dict(rec=R2, gt=G2, cols=["user id", "item id"]), dict(rec=R2, gt=G2, cols=["class", "_item"], extra=False),
         dict(rec=R2, gt=G2, cols=["index", "count"])]
      + [dict(n_rec=3, n_gt=2), dict(n_rec=2, n_gt=1, sym_users=True), dict(n_rec=1, n_gt=2, sym_users=True)],
      [dict(n_rec=2, n_gt=2, sym_users=True), dict(n_rec=4, n_gt=2)]),
]
