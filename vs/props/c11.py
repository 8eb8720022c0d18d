import numpy as np

from ..ctx import H
from .evalref import NAMES, compare, interactions, reference

ID = "C11"
MODULES = ["_core_evaluator", "_util_cpp"]
FUNCTIONS = ["irspack.evaluation.EvaluatorWithColdUser.__init__ / get_score / get_scores / _get_scores_as_list / "
             "get_score_from_score_matrix", "evaluator.cpp Metrics, EvaluatorCore (compiled from source)"]
BOUNDS = "up to 3 cold users, 3 training items, 2 feature-only items, arbitrary real scores and arbitrary non-zero interaction values, chunk sizes 1..n+1"


class ColdModel:
    def __init__(self, ctx, n_items, rows, keyed, n_cold, support):
        self.ctx = ctx
        self.n_items = n_items
        self.n_users = 7
        self.rows = rows
        self.keyed = keyed          # row of the input interaction -> user number
        self.n_cold = n_cold
        self.support = support      # True / False / "late" (fails when first called)
        self.features = None
        self.given = None

    def _users(self, X):
        d = self.ctx.dense(X)
        out = []
        for r in d:
            key = tuple(1 if bool(v != 0) else 0 for v in r)
            u = self.keyed.get(key)
            if u is None:
                self.ctx.check("model queried with the history of one of the users", False)
                u = 0
            out.append(u)
            if self.given is not None:
                for i, v in enumerate(r):
                    self.ctx.eq("history value", v, self.given[u][i])
        return out

    def get_score_cold_user(self, X):
        us = self._users(X)
        return self.ctx.asarray([self.rows[u][: self.n_items] for u in us], (len(us), self.n_items))

    def _create_cold_user_with_item_features_scorer(self, feats):
        self.features = feats
        if self.support is False:
            raise NotImplementedError()

        def scorer(X):
            if self.support == "late":
                raise NotImplementedError()
            us = self._users(X)
            return self.ctx.asarray([self.rows[u] for u in us], (len(us), self.n_items + self.n_cold))

        return scorer


def cold(ctx, inp, gt, n_items, n_cold, cutoff, mb, support=True, mask=None, mask_wide=None, rec=None, rwc=False, vals="varied", fmt="csr"):
    from irspack.evaluation import EvaluatorWithColdUser

    n = len(inp)
    tot = n_items + n_cold
    rows = [[ctx.real(f"s{u}_{i}") for i in range(tot)] for u in range(n)]
    keyed = {tuple(1 if i in r else 0 for i in range(n_items)): u for u, r in enumerate(inp)}
    model = ColdModel(ctx, n_items, rows, keyed, n_cold, support)
    X = interactions(ctx, "x", inp, n_items, vals, fmt)
    model.given = ctx.dense(X)
    kw = {}
    m = None
    if mask is not None:
        m = mask
        kw["masked_interactions"] = interactions(ctx, "m", mask, n_items, vals, fmt)
    if mask_wide is not None:
        m = mask_wide
        kw["masked_interactions"] = interactions(ctx, "m", mask_wide, tot, vals, fmt)
    if rec is not None:
        kw["recommendable_items"] = list(rec)
    feats = None
    if n_cold:
        feats = ctx.asarray([[1.0]] * n_cold, (n_cold, 1))
        kw["cold_item_features"] = feats
    ev = EvaluatorWithColdUser(X, interactions(ctx, "g", gt, tot, vals, fmt), cutoff=cutoff, n_threads=1,
                               mb_size=ctx.choice("mb", mb), recall_with_cutoff=rwc, **kw)
    eff, full = [], []
    for u in range(n):
        hidden = set(m[u]) if m is not None else set(inp[u])
        r, f = [], []
        for i in range(tot):
            v = rows[u][i]
            f.append(float("-inf") if i in hidden else v)
            if i >= n_items and support is not True:
                v = float("-inf")
            r.append(float("-inf") if i in hidden else v)
        eff.append(r)
        full.append(f)
    allowed = [rec if rec is not None else list(range(tot))] * n
    ref = reference(ctx, eff, gt, allowed, cutoff, tot, rwc, len(allowed[0]))
    compare(ctx, "", ev.get_score(model), ref)
    if n_cold:
        ctx.check("scorer got the features", model.features is feats)
    many = ev.get_scores(model, [cutoff, 1])
    compare(ctx, "many ", {k: many.get(f"{k}@{cutoff}") for k in NAMES}, ref, NAMES)
    # the matrix interface applies the same masks
    S = ctx.asarray(rows, (n, tot))
    ref2 = ref if support is True else reference(ctx, full, gt, allowed, cutoff, tot, rwc, len(allowed[0]))
    compare(ctx, "matrix ", ev.get_score_from_score_matrix(S), ref2)
    for u in range(n):
        for i in range(tot):
            ctx.eq(f"input[{u},{i}]", S[u, i], rows[u][i])
    ctx.reach("evaluated")


def reuse(ctx):
    """one evaluator follows a model through training, and serves other models"""
    from irspack.evaluation import EvaluatorWithColdUser

    inp, gt, n_items, n_cold = [[0], [1]], [[1, 2], [2]], 2, 1
    keyed = {(1, 0): 0, (0, 1): 1}
    feats = ctx.asarray([[1.0]], (1, 1))
    ev = EvaluatorWithColdUser(interactions(ctx, "x", inp, n_items, "varied", "csr"), interactions(ctx, "g", gt, 3, "varied", "csr"),
                               cutoff=2, n_threads=1, cold_item_features=feats)
    model = None
    for step, support in (("first", True), ("trained", True), ("other", False), ("last", True)):
        rows = [[ctx.real(f"{step}{u}_{i}") if u == 0 else ctx.const((i * (2 if step == "trained" else 1)) % 3) for i in range(3)] for u in range(2)]
        if step == "trained":
            model.rows = rows
        else:
            model = ColdModel(ctx, n_items, rows, keyed, n_cold, support)
        eff = [[float("-inf") if i in inp[u] or (i >= n_items and not support) else rows[u][i] for i in range(3)] for u in range(2)]
        ref = reference(ctx, eff, gt, [[0, 1, 2]] * 2, 2, 3, False, 3)
        compare(ctx, f"{step} ", ev.get_score(model), ref)
        ctx.eq(f"{step} target", ev.get_target_score(model), ref["ndcg"])
    ctx.reach("reused")


def mismatch(ctx):
    from irspack.evaluation import EvaluatorWithColdUser as E

    X = ctx.sparse("x", [[0], [1]], 3, values=1.0)
    kind = ctx.choice("kind", ["rows", "cold_columns", "model_items"])
    if kind == "rows":
        ctx.raises(kind, ValueError, lambda: E(X, ctx.sparse("g", [[0]], 3, values=1.0)))
    elif kind == "cold_columns":
        ctx.raises(kind, ValueError, lambda: E(X, ctx.sparse("g", [[0], [1]], 3, values=1.0),
                                               cold_item_features=ctx.asarray([[1.0]], (1, 1))))
    else:
        ev = E(X, ctx.sparse("g", [[0], [1]], 3, values=1.0), cutoff=1, n_threads=1)
        mdl = ColdModel(ctx, 4, [[1.0] * 4] * 2, {}, 0, False)
        ctx.raises(kind, ValueError, lambda: ev.get_score(mdl))


Q = [
    dict(inp=[[0], [1, 2]], gt=[[1, 2], [0]], n_items=3, n_cold=0, cutoff=2, mb=[1, 2, 3]),
    dict(inp=[[0], [1]], gt=[[1, 2], [2, 3]], n_items=2, n_cold=2, cutoff=2, mb=[1, 2], support=True),
    dict(inp=[[0], [1]], gt=[[1, 2], [2]], n_items=2, n_cold=1, cutoff=2, mb=[1, 2], support=False),
    dict(inp=[[0], [1]], gt=[[1, 2], [0]], n_items=2, n_cold=1, cutoff=1, mb=[1, 2], support="late"),
    dict(inp=[[0], [1]], gt=[[0, 2], [0]], n_items=2, n_cold=1, cutoff=2, mb=[2], mask=[[1], []]),
    dict(inp=[[0], [1]], gt=[[0, 2], [0, 2]], n_items=2, n_cold=1, cutoff=2, mb=[1], mask_wide=[[1], [2]]),
    dict(inp=[[0], [1], []], gt=[[1], [], [0]], n_items=2, n_cold=0, cutoff=2, mb=[1, 2], mask=[[], [1], [0]], rwc=True),
    dict(inp=[[0], [1]], gt=[[1, 2], [2]], n_items=2, n_cold=1, cutoff=2, mb=[2], rec=[2, 1]),
    dict(inp=[[0, 1], [2]], gt=[[2], [0, 1]], n_items=3, n_cold=0, cutoff=2, mb=[1, 2], vals="sym"),
    dict(inp=[[0], [1]], gt=[[1, 2], [0]], n_items=2, n_cold=1, cutoff=2, mb=[1, 2], vals="sym", fmt="csc"),
    dict(inp=[[0], [1]], gt=[[0, 2], [0]], n_items=2, n_cold=1, cutoff=2, mb=[1, 2], mask=[[1], []], vals="sym", fmt="csc"),
]
T = [dict(inp=[[0], [1, 2], [0, 2]], gt=[[1, 2], [0, 3], [1]], n_items=3, n_cold=1, cutoff=2, mb=[1, 2, 3], support=s)
     for s in (True, False)]
HARNESSES = [H("cold", cold, Q, T), H("reuse", reuse, [dict()]), H("mismatch", mismatch, [dict()])]
