"""Definitional reference for ranking metrics (written from the documentation
and the textbook definitions, not from the implementation)."""
import functools


def ranking(ctx, scores, allowed):
    """item indices by descending score; -inf is never recommended; ties by index"""
    cand = [i for i in allowed if not (isinstance(scores[i], float) and scores[i] == float("-inf"))]

    def c(i, j):
        if scores[i] > scores[j]:
            return -1
        if scores[j] > scores[i]:
            return 1
        return i - j

    return sorted(cand, key=functools.cmp_to_key(c))


def metrics(ctx, lists, truths, n_items, recall_with_cutoff=False, n_recommendable=None):
    """lists: recommended item lists of the valid users; truths: their relevant sets.
    Users with an empty relevant set must already be removed by the caller
    (given as None they only count in total_user)."""
    one, zero = ctx.const(1), ctx.const(0)
    tot = dict(hit=zero, ndcg=zero, recall=zero, map=zero, precision=zero)
    counts = [0] * n_items
    valid = 0
    total = 0
    for rec, gt in zip(lists, truths):
        total += 1
        if gt is None:
            continue
        valid += 1
        for i in rec:
            counts[i] += 1
        if not rec:
            continue
        hits = [1 if i in gt else 0 for i in rec]
        k = sum(hits)
        tot["hit"] = tot["hit"] + (1 if k else 0)
        tot["precision"] = tot["precision"] + ctx.div(k, len(rec))
        den = min(len(rec), len(gt)) if recall_with_cutoff else len(gt)
        tot["recall"] = tot["recall"] + ctx.div(k, den)
        ap, seen = zero, 0
        for pos, h in enumerate(hits, 1):
            if h:
                seen += 1
                ap = ap + ctx.div(seen, pos)
        tot["map"] = tot["map"] + ctx.div(ap, len(gt))
        dcg, idcg = zero, zero
        for pos, h in enumerate(hits, 1):
            if h:
                dcg = dcg + ctx.div(one, ctx.log2(pos + 1))
        for pos in range(1, min(len(gt), len(rec)) + 1):
            idcg = idcg + ctx.div(one, ctx.log2(pos + 1))
        tot["ndcg"] = tot["ndcg"] + ctx.div(dcg, idcg)
    n = max(valid, 1)
    out = {m: ctx.div(v, n) for m, v in tot.items()}
    out["total_user"] = total
    out["valid_user"] = valid
    out["n_items"] = n_items
    out["appeared_item"] = sum(1 for c in counts if c)
    s = sum(counts)
    ent = zero
    for c in counts:
        if c:
            p = ctx.div(c, s)
            ent = ent - p * ctx.log(p)
    out["entropy"] = ent
    gini = zero
    if s:
        d = sum(abs(a - b) for a in counts for b in counts)
        gini = ctx.div(d, 2 * n_items * s)
    out["gini_index"] = gini
    if n_recommendable is not None:
        out["catalog_coverage"] = ctx.div(out["appeared_item"], n_recommendable) if n_recommendable else float("nan")
    return out


def reference(ctx, scores, gt, allowed, cutoff, n_items, rwc, n_rec):
    """scores: rows; gt: list of sets; allowed: list (per user) of item lists"""
    lists, truths = [], []
    for u, row in enumerate(scores):
        g = set(gt[u]) & set(allowed[u])
        if not g:
            lists.append([])
            truths.append(None)
            continue
        lists.append(ranking(ctx, row, sorted(allowed[u]))[:cutoff])
        truths.append(g)
    return metrics(ctx, lists, truths, n_items, rwc, n_rec)


ALL = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage",
       "total_user", "valid_user", "n_items"]
NAMES = ALL[:9]


def compare(ctx, label, got, ref, keys=ALL):
    for k in keys:
        if k not in ref:
            continue
        ctx.check(f"{label}{k} present", k in got)
        if k in got:
            ctx.eq(label + k, got[k], ref[k])


VARIED = [2.0, -1.0, 0.5, 1.0, 3.25, -0.75]


def interactions(ctx, name, pattern, n_cols, vals="varied", fmt="csr"):
    """a sparse matrix with non-zero entries exactly at the pattern: arbitrary non-zero values ("sym"), or mixed constants"""
    cells, k = [], 0
    for i, cs in enumerate(pattern):
        for j in cs:
            if vals == "sym":
                v = ctx.real(f"{name}{i}_{j}", default=2)
                ctx.assume(v != 0)
            else:
                v = VARIED[k % len(VARIED)] if vals == "varied" else 1.0
                k += 1
            cells.append((i, j, v))
    import numpy as np
    cls = ctx.sps.csr_matrix if fmt == "csr" else ctx.sps.csc_matrix
    return cls((ctx.asarray([c[2] for c in cells]), (np.array([c[0] for c in cells], dtype=np.int64),
                                                     np.array([c[1] for c in cells], dtype=np.int64))),
               shape=(len(pattern), n_cols))
