import numpy as np

from ..ctx import H
from .evalref import NAMES, compare, interactions, reference

ID = "C09"
MODULES = ["_core_evaluator", "_util_cpp"]
FUNCTIONS = ["evaluator.cpp Metrics, EvaluatorCore::get_metrics*, cache_X_map (compiled from source)",
             "irspack.evaluation.Evaluator.__init__, get_score(s)_from_score_matrix, get_score(s)_from_score_chunks, "
             "_metrics_as_dict"]
BOUNDS = ("up to 3 users x 4 items (quick: 2x3, 1x4 with all real scores incl. ties; excluded (-inf) cells anywhere), all cutoffs, all "
          "recommendable subsets of the listed cases, chunk sizes 1..n+1, 1-2 threads with every interleaving at "
          "atomic operations")


def _eval(ctx, gt, n_items, vals="varied", fmt="csr", **kw):
    from irspack.evaluation import Evaluator

    G = interactions(ctx, "g", gt, n_items, vals, fmt)
    return Evaluator(G, **kw)


def _scores(ctx, n_users, n_items, ninf=(), n_sym=None):
    rows = []
    for u in range(n_users):
        rows.append([float("-inf") if [u, i] in ninf else ctx.real(f"s{u}_{i}") for i in range(n_items)])
    return rows


def matrix(ctx, gt, n_items, cutoffs, rec=None, per_user=None, ninf=[], rwc=False, mb=[128], threads=[1], sparse_rec=False,
           mask=None, vals="varied", fmt="csr"):
    """multi-cutoff evaluation of a full score matrix against the definition"""
    n = len(gt)
    rows = _scores(ctx, n, n_items, ninf)
    S = ctx.asarray(rows, (n, n_items))
    mbs = ctx.choice("mb", mb)
    nt = ctx.choice("threads", threads)
    cutoff = ctx.choice("cutoff", cutoffs)
    kw = {}
    if per_user is not None:
        kw["per_user_recommendable_items"] = (
            interactions(ctx, "r", per_user, n_items, vals, fmt) if sparse_rec else [list(x) for x in per_user])
    if rec is not None:
        kw["recommendable_items"] = list(rec)
    if mask is not None:
        kw["masked_interactions"] = interactions(ctx, "m", mask, n_items, vals, fmt)
    ev = _eval(ctx, gt, n_items, vals, fmt, cutoff=cutoff, n_threads=nt, recall_with_cutoff=rwc, mb_size=mbs, **kw)
    allowed = per_user or [rec if rec is not None else list(range(n_items))] * n
    eff = [[float("-inf") if mask is not None and i in mask[u] else v for i, v in enumerate(r)] for u, r in enumerate(rows)]
    nrec = len(set().union(*allowed)) if per_user else len(allowed[0])
    got = ev.get_score_from_score_matrix(S)
    ref = reference(ctx, eff, gt, allowed, cutoff, n_items, rwc, nrec)
    compare(ctx, "", got, ref)
    for k in ("hit", "recall", "ndcg", "map", "precision"):
        ctx.le(k + ">=0", 0, got[k])
        ctx.le(k + "<=1", got[k], 1)
    # the caller's array is left alone
    for u in range(n):
        for i in range(n_items):
            ctx.eq(f"input[{u},{i}]", S[u, i], rows[u][i])
    ctx.reach("evaluated")


def many_cutoffs(ctx, gt, n_items, cutoffs, chunks):
    """streaming evaluation with several cutoffs equals the definition"""
    n = len(gt)
    rows = _scores(ctx, n, n_items)
    S = ctx.asarray(rows, (n, n_items))
    blocks, at = [], 0
    for c in chunks:
        blocks.append(S[at:at + c])
        at += c
    ev = _eval(ctx, gt, n_items, cutoff=cutoffs[0], n_threads=1)
    got = ev.get_scores_from_score_chunks(iter(blocks), cutoffs)
    ctx.check("keys", set(got) == {f"{m}@{c}" for m in NAMES for c in cutoffs})
    for c in cutoffs:
        ref = reference(ctx, rows, gt, [list(range(n_items))] * n, c, n_items, False, n_items)
        compare(ctx, f"@{c} ", {m: got[f"{m}@{c}"] for m in NAMES if f"{m}@{c}" in got}, ref, NAMES)
    got2 = ev.get_scores_from_score_matrix(S, cutoffs)
    ctx.check("keys2", set(got2) == set(got))
    for k in got:
        if k in got2:
            ctx.eq("matrix==chunks " + k, got2[k], got[k])
    ctx.reach("evaluated")


def rejects(ctx):
    """inputs that cannot be evaluated are refused rather than mis-scored"""
    from irspack.evaluation import Evaluator

    gt = [[0], [1]]
    ev = _eval(ctx, gt, 3, cutoff=2, n_threads=1)
    S = ctx.asarray([[ctx.real(f"s{u}_{i}") for i in range(3)] for u in range(2)], (2, 3))
    E = (ValueError, RuntimeError, TypeError)
    kind = ctx.choice("kind", ["few_rows", "many_rows", "cols", "chunks_short", "chunks_long", "cutoff0", "cutoff_big",
                               "rec_range", "rec_dup", "per_user_len", "mask_shape"])
    if kind == "few_rows":
        ctx.raises(kind, E, lambda: ev.get_score_from_score_matrix(S[:1]))
    elif kind == "many_rows":
        ctx.raises(kind, E, lambda: ev.get_score_from_score_matrix(ctx.np.concatenate([S, S])))
    elif kind == "cols":
        ctx.raises(kind, E, lambda: ev.get_score_from_score_matrix(S[:, :2]))
    elif kind == "chunks_short":
        ctx.raises(kind, E, lambda: ev.get_score_from_score_chunks([S[:1]]))
    elif kind == "chunks_long":
        ctx.raises(kind, E, lambda: ev.get_score_from_score_chunks([S, S[:1]]))
    elif kind == "cutoff0":
        ctx.raises(kind, E, lambda: ev.get_scores_from_score_matrix(S, [0]))
    elif kind == "cutoff_big":
        ctx.raises(kind, E, lambda: ev.get_scores_from_score_matrix(S, [4]))
    elif kind == "rec_range":
        ctx.raises(kind, E, lambda: _eval(ctx, gt, 3, recommendable_items=[0, 3]))
    elif kind == "rec_dup":
        ctx.raises(kind, E, lambda: _eval(ctx, gt, 3, recommendable_items=[1, 0, 1]))
    elif kind == "per_user_len":
        ctx.raises(kind, E, lambda: _eval(ctx, gt, 3, per_user_recommendable_items=[[0], [1], [2]]))
    else:
        ctx.raises(kind, E, lambda: _eval(ctx, gt, 3, masked_interactions=ctx.sparse("m", [[0]], 3, values=1.0)))


Q = [
    dict(gt=[[0, 2, 3]], n_items=4, cutoffs=[1, 2, 3, 4]),
    dict(gt=[[1]], n_items=4, cutoffs=[1, 3], rwc=True, ninf=[[0, 2]]),
    dict(gt=[[0, 2], [1]], n_items=3, cutoffs=[2], rwc=True),
    dict(gt=[[0, 1, 2], []], n_items=3, cutoffs=[1, 2, 3], mb=[1, 2]),
    dict(gt=[[0], [0, 1, 2], [1, 2]], n_items=3, cutoffs=[2], ninf=[[0, 1], [1, 0], [1, 1], [1, 2], [2, 0]], mb=[1, 2, 3, 4]),
    dict(gt=[[0, 3], [1, 3]], n_items=4, cutoffs=[1, 2, 4], rec=[3, 1]),
    dict(gt=[[0, 2], [0, 1], [2]], n_items=3, cutoffs=[1, 3], per_user=[[2, 0], [2], []], mb=[1, 2, 3]),
    dict(gt=[[0, 2], [0, 1]], n_items=3, cutoffs=[2], per_user=[[0, 1], [1, 2]], sparse_rec=True),
    dict(gt=[[0], [1], [0]], n_items=2, cutoffs=[1], threads=[2], mb=[2, 3]),
    dict(gt=[[0, 2]], n_items=3, cutoffs=[2], threads=[2, 3]),
    dict(gt=[[0, 1], [2]], n_items=3, cutoffs=[2], mask=[[0], [1, 2]], mb=[1, 2]),
    dict(gt=[[0, 1]], n_items=3, cutoffs=[1, 2, 3], rec=[2, 0, 1], mask=[[0]]),
    dict(gt=[[0, 1], [2]], n_items=3, cutoffs=[2], mask=[[0], [1, 2]], mb=[1, 2], vals="sym", fmt="csc"),
    dict(gt=[[0, 2], [1, 2]], n_items=3, cutoffs=[2], per_user=[[0, 1], [2]], sparse_rec=True, vals="sym", fmt="csc"),
]
T = [
    dict(gt=[[0, 2], [1], [0, 1, 2]], n_items=3, cutoffs=[2], mb=[1, 2, 3]),
    dict(gt=[[0, 2, 4]], n_items=5, cutoffs=[2, 5]),
    dict(gt=[[0], [1]], n_items=3, cutoffs=[2], threads=[2, 3], mb=[1, 2]),
]
HARNESSES = [
    H("matrix", matrix, Q, T),
    H("many_cutoffs", many_cutoffs, [dict(gt=[[0, 1], [2]], n_items=3, cutoffs=[1, 3], chunks=[1, 1]),
                                     dict(gt=[[0], [], [1]], n_items=2, cutoffs=[2, 1], chunks=[2, 0, 1])],
      [dict(gt=[[0, 1], [2], [1]], n_items=3, cutoffs=[1, 2, 3], chunks=[2, 1])]),
    H("rejects", rejects, [dict()]),
]
