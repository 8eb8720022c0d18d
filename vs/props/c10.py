import numpy as np

from ..ctx import H
from .evalref import NAMES, compare, interactions, reference

ID = "C10"
MODULES = ["_core_evaluator", "_util_cpp"]
FUNCTIONS = ["irspack.evaluation.Evaluator.get_score / get_scores / get_target_score / _get_scores_as_list",
             "evaluator.cpp Metrics, EvaluatorCore (compiled from source)"]
BOUNDS = ("models of up to 5 users x 3 items with arbitrary real scores and arbitrary non-zero interaction values; offsets 0..2, chunk sizes 1..n+1, mask given or taken "
          "from the training matrix; block scoring available or not; 1..2 threads")


class Model:
    """a recommender with arbitrary scores"""

    def __init__(self, ctx, X, rows, block, n_items):
        self.ctx = ctx
        self.X_train_all = X
        self.rows = rows
        self.block = block
        self.n_users = X.shape[0]
        self.n_items = n_items
        self.calls = []

    def get_score(self, idx):
        idx = [int(i) for i in idx]
        self.calls += idx
        return self.ctx.asarray([self.rows[i] for i in idx], (len(idx), self.n_items))

    def get_score_block(self, begin, end):
        if not self.block:
            raise NotImplementedError()
        return self.get_score(range(begin, end))


def warm(ctx, train, gt, n_items, offset, cutoff, mb, block, mask=None, rec=None, rwc=False, vals="varied", fmt="csr",
         per_user=None, threads=1):
    from irspack.evaluation import Evaluator

    nu = len(train)
    rows = [[ctx.real(f"s{u}_{i}") for i in range(n_items)] for u in range(nu)]
    X = interactions(ctx, "x", train, n_items, vals)
    model = Model(ctx, X, rows, block, n_items)
    kw = {}
    if mask is not None:
        kw["masked_interactions"] = interactions(ctx, "m", mask, n_items, vals, fmt)
    if rec is not None:
        kw["recommendable_items"] = list(rec)
    if per_user is not None:
        kw["per_user_recommendable_items"] = [list(r) for r in per_user]
    metric = ctx.choice("metric", ["ndcg", "recall", "hit", "map", "precision"]) if len(gt) == 1 else "ndcg"
    ev = Evaluator(interactions(ctx, "g", gt, n_items, vals, fmt), offset=offset, cutoff=cutoff, n_threads=threads,
                   mb_size=ctx.choice("mb", mb), recall_with_cutoff=rwc, target_metric=metric, **kw)
    eff = []
    for k in range(len(gt)):
        m = mask[k] if mask is not None else train[k + offset]
        eff.append([float("-inf") if i in m else rows[k + offset][i] for i in range(n_items)])
    allowed = per_user or [rec if rec is not None else list(range(n_items))] * len(gt)
    n_rec = len(set().union(*allowed)) if per_user else len(allowed[0])
    ref = reference(ctx, eff, gt, allowed, cutoff, n_items, rwc, n_rec)
    got = ev.get_score(model)
    compare(ctx, "", got, ref)
    many = ev.get_scores(model, [cutoff, 1])
    ctx.check("keys", set(many) == {f"{n}@{c}" for n in NAMES for c in (cutoff, 1)})
    compare(ctx, "many ", {n: many.get(f"{n}@{cutoff}") for n in NAMES}, ref, NAMES)
    ref1 = reference(ctx, eff, gt, allowed, 1, n_items, rwc, n_rec)
    compare(ctx, "many@1 ", {n: many.get(f"{n}@1") for n in NAMES}, ref1, NAMES)
    ctx.eq("target", ev.get_target_score(model), ref[metric])
    ctx.reach("evaluated")


def reuse(ctx, block):
    """one evaluator follows a model through training, and serves other models"""
    from irspack.evaluation import Evaluator

    train, gt, n = [[0], []], [[1], [0, 2]], 3
    X = interactions(ctx, "x", train, n, "varied")
    ev = Evaluator(interactions(ctx, "g", gt, n, "varied"), cutoff=2, n_threads=1)
    model = None
    for step in ("first", "trained", "other"):
        rows = [[ctx.real(f"{step}{u}_{i}") if u == 0 else ctx.const((i * (2 if step == "trained" else 1)) % 3) for i in range(n)] for u in range(2)]
        if step == "trained":
            model.rows = rows
        else:
            model = Model(ctx, X, rows, block, n)
        eff = [[float("-inf") if i in train[k] else rows[k][i] for i in range(n)] for k in range(2)]
        ref = reference(ctx, eff, gt, [list(range(n))] * 2, 2, n, False, n)
        compare(ctx, f"{step} ", ev.get_score(model), ref)
        ctx.eq(f"{step} target", ev.get_target_score(model), ref["ndcg"])
    ctx.reach("reused")


def mismatch(ctx):
    from irspack.evaluation import Evaluator

    E = (ValueError, RuntimeError)
    X = ctx.sparse("x", [[0], [1]], 3, values=1.0)
    rows = [[ctx.real(f"s{u}_{i}") for i in range(3)] for u in range(2)]
    kind = ctx.choice("kind", ["offset", "users", "items"])
    m = Model(ctx, X, rows, True, 3)
    if kind == "offset":
        ev = Evaluator(ctx.sparse("g", [[0], [1]], 3, values=1.0), offset=1, cutoff=1, n_threads=1)
    elif kind == "users":
        ev = Evaluator(ctx.sparse("g", [[0], [1], [2]], 3, values=1.0), cutoff=1, n_threads=1)
    else:
        ev = Evaluator(ctx.sparse("g", [[0], [1]], 4, values=1.0), cutoff=1, n_threads=1)
    ctx.raises(kind, E, lambda: ev.get_score(m))


Q = [
    dict(train=[[0], [1, 2]], gt=[[1, 2], [0]], n_items=3, offset=0, cutoff=2, mb=[1, 2, 3], block=True),
    dict(train=[[0], [2], [1]], gt=[[0, 1], [2]], n_items=3, offset=1, cutoff=2, mb=[1, 2], block=False, rwc=True),
    dict(train=[[0], [2], [0, 1], []], gt=[[1], [0]], n_items=3, offset=1, cutoff=3, mb=[1, 2], block=True,
         mask=[[0], [1]]),
    dict(train=[[1], [0], []], gt=[[0, 2]], n_items=3, offset=2, cutoff=2, mb=[5], block=True),
    dict(train=[[], [], [0]], gt=[[0], [1], [1]], n_items=2, offset=0, cutoff=1, mb=[1, 2, 3], block=True, rec=[1, 0]),
    dict(train=[[], [0]], gt=[[0, 1], [1, 2]], n_items=3, offset=0, cutoff=2, mb=[1], block=False, rec=[2, 1]),
    dict(train=[[0, 2], [1]], gt=[[1], [0, 2]], n_items=3, offset=0, cutoff=1, mb=[1, 2], block=True, vals="sym"),
    dict(train=[[0], [2], [1]], gt=[[0], [1, 2]], n_items=3, offset=1, cutoff=2, mb=[1, 2], block=True, vals="sym", fmt="csc",
         mask=[[1, 2], [0]]),
    dict(train=[[], [0], [1]], gt=[[0, 1], [2]], n_items=3, offset=1, cutoff=2, mb=[1, 2], block=True, per_user=[[2, 0], [1, 2]]),
    dict(train=[[0], [1], []], gt=[[1], [0], [0]], n_items=2, offset=0, cutoff=1, mb=[2, 3], block=True, threads=2),
]
T = [dict(train=[[0], [2], [0, 1], [], [1]], gt=[[1], [0], [0, 2]], n_items=3, offset=2, cutoff=2, mb=[1, 2, 3], block=b)
     for b in (True, False)]
HARNESSES = [H("warm", warm, Q, T), H("reuse", reuse, [dict(block=True), dict(block=False)]), H("mismatch", mismatch, [dict()])]
