import numpy as np

from ..ctx import H

ID = "C13"
MODULES = ["_util_cpp", "_knn"]
FUNCTIONS = ["irspack.recommenders.knn (Cosine / AsymmetricCosine / Jaccard / TverskyIndex KNN recommenders)",
             "irspack.recommenders.user_knn (Cosine / AsymmetricCosine user KNN recommenders)",
             "knn/knn.hpp KNNComputer, knn/similarities.hpp computers, util.hpp weighting and remove_diagonal (compiled from source)"]
BOUNDS = ("up to 4 items x 4 users (plus 130-item matrices crossing the 128-row work block), arbitrary positive interaction values, "
          "shrinkage, alpha, beta; top_k 0..n; chunk sizes 1..3; 1..3 threads with all schedules of at most 2 scheduling delays; "
          "x^p and sqrt are uninterpreted beyond their algebraic identities")
EPS = 1e-6


def weighted(ctx, x, users, items, scheme, k1=None, b=None):
    """{(u, i): weight}"""
    N = len(users)
    if scheme == "NONE":
        return dict(x)
    df = {i: sum(1 for (u, j) in x if j == i) for i in items}
    if scheme == "TF_IDF":
        return {(u, i): v * ctx.log(ctx.div(ctx.const(N), df[i] + 1)) for (u, i), v in x.items()}
    L = {u: sum((v for (w, _), v in x.items() if w == u), ctx.const(0)) for u in users}
    avg = ctx.div(sum(L.values(), ctx.const(0)), N)
    out = {}
    for (u, i), v in x.items():
        idf = ctx.log(ctx.const(1) + ctx.div(ctx.const(N), df[i] + 1))
        out[u, i] = ctx.div(idf * v * (k1 + 1), v + k1 * (1 - b + b * ctx.div(L[u], avg)))
    return out


def sim(ctx, kind, A, B, p):
    """similarity of target vector A and base vector B ({feature: value}); None when they share no feature"""
    common = [f for f in A if f in B]
    if not common:
        return None
    dot = sum((A[f] * B[f] for f in common), ctx.const(0))
    na = sum((v * v for v in A.values()), ctx.const(0))
    nb = sum((v * v for v in B.values()), ctx.const(0))
    s = p.get("shrinkage", 0)
    if kind == "cosine":
        if not p["normalize"]:
            return dot
        return ctx.div(dot, ctx.sqrt(na) * ctx.sqrt(nb) + s + ctx.const(EPS))
    if kind == "asymmetric":
        return ctx.div(dot, ctx.pow(na, p["alpha"]) * ctx.pow(nb, 1 - p["alpha"]) + s + ctx.const(EPS))
    c = ctx.const(len(common))
    if kind == "jaccard":
        return ctx.div(c, ctx.const(len(A) + len(B) - len(common)) + s + ctx.const(EPS))
    return ctx.div(c, c + p["alpha"] * (len(A) - len(common)) + p["beta"] * (len(B) - len(common)) + s + ctx.const(EPS))


def topk(cands, k):
    """[(value, index)] -> kept indices: largest values, ties to the smaller index"""
    rest, out = list(cands), []
    while rest and len(out) < k:
        best = 0
        for t in range(1, len(rest)):
            if bool(rest[best][0] < rest[t][0]):
                best = t
        out.append(rest.pop(best)[1])
    return set(out)


def expect(ctx, kind, T, B, p, k, drop_diag):
    """rows of T against rows of B -> {(a, b): value}"""
    out = {}
    for a in range(len(T)):
        row = []
        for b in range(len(B)):
            v = sim(ctx, kind, T[a], B[b], p)
            if v is not None:
                row.append((v, b))
        keep = topk(row, k) if k < len(row) else {b for _, b in row}
        for v, b in row:
            if b in keep and not (drop_diag and a == b):
                out[a, b] = v
    return out


def compare(ctx, label, got, n, m, want):
    ctx.check(f"{label} shape", tuple(got.shape) == (n, m))
    g = ctx.entries(got)
    for k in sorted(set(g) | set(want)):
        ctx.eq(f"{label}[{k[0]},{k[1]}]", g.get(k, 0), want.get(k, 0))
    ctx.reach(label)


def _vals(ctx, pattern, n, fmt, ones, signed=False):
    k = {"values": 1.0} if ones else {"lo": -16, "hi": 16} if signed else {"pos": True, "hi": 16}
    X = ctx.sparse("x", pattern, n, fmt=fmt, **k)
    x = ctx.entries(X)
    if signed:
        for v in x.values():
            ctx.assume(v != 0)
    return X, x


def _params(ctx, kind, params):
    p = {}
    for name in params:
        v = params[name]
        if v == "sym":
            lo, hi = (0, 1) if name == "alpha" and kind == "asymmetric" else (0, 8)
            v = ctx.real(name, lo=lo, hi=hi)
        p[name] = v
    return p


CLS = {"cosine": "CosineKNNRecommender", "asymmetric": "AsymmetricCosineKNNRecommender", "jaccard": "JaccardKNNRecommender",
       "tversky": "TverskyIndexKNNRecommender"}


def item(ctx, kind, pattern, n, params, top_k, threads=1, weighting="NONE", ones=False, fmt="csr", signed=False):
    import irspack.recommenders.knn as m

    X, x = _vals(ctx, pattern, n, fmt, ones, signed)
    p = _params(ctx, kind, params)
    kw = dict(p)
    wp = {}
    if weighting != "NONE":
        kw["feature_weighting"] = weighting
    if weighting == "BM_25":
        wp = dict(k1=ctx.real("k1", lo=0, hi=4), b=ctx.real("b", lo=0, hi=1))
        kw.update(bm25_k1=wp["k1"], bm25_b=wp["b"])
    rec = getattr(m, CLS[kind])(X, top_k=top_k, n_threads=threads, **kw).learn()
    users, items = range(len(pattern)), range(n)
    w = weighted(ctx, x, users, items, weighting, **wp)
    T = [{u: x[u, i] for u in users if (u, i) in x} for i in items]
    B = [{u: w[u, i] for u in users if (u, i) in w} for i in items]
    want = expect(ctx, kind, T, B, p, top_k, True)
    compare(ctx, "W", rec.W, n, n, want)
    if n <= 4:
        u = ctx.pick("user", len(pattern))
        s = rec.get_score(np.array([u]))
        for j in items:
            ctx.eq(f"score {j}", s[0, j], sum((x[u, i] * want[i, j] for i in pattern[u] if (i, j) in want), ctx.const(0)))


def user(ctx, kind, pattern, n, params, top_k, threads=1, weighting="NONE", ones=False):
    import irspack.recommenders.user_knn as m

    X, x = _vals(ctx, pattern, n, "csr", ones)
    p = _params(ctx, kind, params)
    kw = dict(p)
    wp = {}
    if weighting != "NONE":
        kw["feature_weighting"] = weighting
    if weighting == "BM_25":
        wp = dict(k1=ctx.real("k1", lo=0, hi=4), b=ctx.real("b", lo=0, hi=1))
        kw.update(bm25_k1=wp["k1"], bm25_b=wp["b"])
    cls = m.CosineUserKNNRecommender if kind == "cosine" else m.AsymmetricCosineUserKNNRecommender
    rec = cls(X, top_k=top_k, n_threads=threads, **kw).learn()
    nu = len(pattern)
    w = weighted(ctx, x, range(nu), range(n), weighting, **wp)
    T = [{i: x[u, i] for i in pattern[u]} for u in range(nu)]
    B = [{i: w[u, i] for i in pattern[u]} for u in range(nu)]
    want = expect(ctx, kind, T, B, p, top_k, True)
    compare(ctx, "U", rec.U, nu, nu, want)
    u = ctx.pick("user", nu)
    s = rec.get_score(np.array([u]))
    for j in range(n):
        ctx.eq(f"score {j}", s[0, j],
               sum((want[u, v] * x[v, j] for v in range(nu) if (u, v) in want and j in pattern[v]), ctx.const(0)))


def computer(ctx, kind, base, target, n_feat, params, top_k, chunk, threads, ones=False):
    """the similarity computers applied to a target different from the base matrix"""
    import irspack.recommenders._knn as m

    X, x = _vals(ctx, base, n_feat, "csr", ones)
    T = ctx.sparse("t", target, n_feat, **({"values": 1.0} if ones else {"pos": True, "hi": 16}))
    t = ctx.entries(T)
    p = _params(ctx, kind, params)
    s = p.get("shrinkage", 0.0)
    if kind == "cosine":
        c = m.CosineSimilarityComputer(X, s, p["normalize"], n_threads=threads, max_chunk_size=chunk)
    elif kind == "asymmetric":
        c = m.AsymmetricSimilarityComputer(X, s, p["alpha"], n_threads=threads, max_chunk_size=chunk)
    elif kind == "jaccard":
        c = m.JaccardSimilarityComputer(X, s, n_threads=threads, max_chunk_size=chunk)
    else:
        c = m.TverskyIndexComputer(X, s, p["alpha"], p["beta"], n_threads=threads, max_chunk_size=chunk)
    got = c.compute_similarity(T, top_k)
    A = [{f: t[a, f] for f in r} for a, r in enumerate(target)]
    B = [{f: x[b, f] for f in r} for b, r in enumerate(base)]
    compare(ctx, "S", got, len(target), len(base), expect(ctx, kind, A, B, p, top_k, False))
    ctx.raises("feature count", (ValueError, RuntimeError),
               lambda: c.compute_similarity(ctx.sparse("z", [[0]], n_feat + 1, values=1.0), top_k))


def rejects(ctx):
    import irspack.recommenders.knn as m

    X = ctx.sparse("x", [[0, 1], [1]], 2, values=1.0)
    E = (ValueError, RuntimeError)
    kind = ctx.choice("kind", ["shrinkage", "alpha", "tversky alpha", "tversky beta", "threads", "weighting"])
    v = ctx.real("v")
    if kind == "shrinkage":
        ctx.assume(v < 0)
        k = ctx.choice("cls", sorted(CLS))
        ctx.raises(kind, E, lambda: getattr(m, CLS[k])(X, shrinkage=v, n_threads=1).learn())
    elif kind == "alpha":
        ctx.assume(ctx.or_(v < 0, v > 1))
        ctx.raises(kind, E, lambda: m.AsymmetricCosineKNNRecommender(X, alpha=v, n_threads=1).learn())
    elif kind == "tversky alpha":
        ctx.assume(v < 0)
        ctx.raises(kind, E, lambda: m.TverskyIndexKNNRecommender(X, alpha=v, n_threads=1).learn())
    elif kind == "tversky beta":
        ctx.assume(v < 0)
        ctx.raises(kind, E, lambda: m.TverskyIndexKNNRecommender(X, beta=v, n_threads=1).learn())
    elif kind == "threads":
        ctx.raises(kind, E, lambda: m.CosineKNNRecommender(X, n_threads=0).learn())
    else:
        ctx.raises(kind, E, lambda: m.CosineKNNRecommender(X, feature_weighting="BM", n_threads=1).learn())


P3 = [[0, 1], [1, 2], [0, 2]]
P4 = [[0, 1, 3], [1, 2], [], [0, 2, 3]]
LONG = [[0, 1, 128, 129], [1, 128], [0, 127, 129]]
PAR = {"cosine": dict(shrinkage="sym", normalize=True), "asymmetric": dict(shrinkage="sym", alpha="sym"),
       "jaccard": dict(shrinkage="sym"), "tversky": dict(shrinkage="sym", alpha="sym", beta="sym")}
RAW = dict(normalize=False)
Q_item = [dict(kind=k, pattern=P4, n=4, params=PAR[k], top_k=10) for k in CLS]
Q_item += [dict(kind=k, pattern=[[0, 1], [1]], n=2, params={}, top_k=2) for k in ("jaccard",)]
Q_item += [dict(kind="cosine", pattern=P3, n=3, params=RAW, top_k=t) for t in (1, 2, 3)]
Q_item += [dict(kind="cosine", pattern=P3, n=3, params=dict(normalize=False, shrinkage="sym"), top_k=5, fmt="csc")]
Q_item += [dict(kind=k, pattern=P4, n=4, params=PAR[k], top_k=2, ones=True) for k in CLS if k != "asymmetric"]
Q_item += [dict(kind="asymmetric", pattern=P4, n=4, params=dict(alpha=a), top_k=2, ones=True) for a in (0.0, 1.0, 0.5)]
Q_item += [dict(kind="jaccard", pattern=LONG, n=130, params=PAR["jaccard"], top_k=2, ones=True, threads=t) for t in (1, 2)]
Q_item += [dict(kind="cosine", pattern=LONG, n=130, params=RAW, top_k=200, threads=t) for t in (1, 3)]
Q_item += [dict(kind="cosine", pattern=[[0, 1], [1]], n=2, params=RAW, top_k=2, threads=t) for t in (3, 4)]
Q_item += [dict(kind="cosine", pattern=P3, n=3, params=dict(normalize=nrm, shrinkage="sym"), top_k=t, signed=True) for nrm, t in ((False, 2), (True, 5))]
Q_item += [dict(kind="jaccard", pattern=P4, n=4, params=PAR["jaccard"], top_k=2, signed=True)]
Q_item += [dict(kind="cosine", pattern=P3, n=4, params=RAW, top_k=4, weighting="TF_IDF")]
Q_item += [dict(kind="cosine", pattern=[[0, 1], [1], [0, 1, 2]], n=3, params=RAW, top_k=4, weighting="BM_25", ones=True)]
Q_item += [dict(kind="asymmetric", pattern=P3, n=4, params=dict(alpha=1.0, shrinkage=1.0), top_k=4, weighting="TF_IDF")]
Q_user = [dict(kind=k, pattern=P4, n=4, params=PAR[k], top_k=10) for k in ("cosine", "asymmetric")]
Q_user += [dict(kind="cosine", pattern=P3, n=3, params=RAW, top_k=2), dict(kind="cosine", pattern=P3, n=3, params=RAW, top_k=9, threads=2),
           dict(kind="cosine", pattern=P4, n=4, params=PAR["cosine"], top_k=2, ones=True),
           dict(kind="cosine", pattern=P3, n=4, params=RAW, top_k=9, weighting="TF_IDF"),
           dict(kind="cosine", pattern=[[0, 1], [1], [0, 1, 2]], n=3, params=RAW, top_k=9, weighting="BM_25", ones=True)]
Q_comp = [dict(kind=k, base=P3, target=[[0], [1, 2], [], [0, 1, 2]], n_feat=3, params=PAR[k], top_k=9, chunk=c, threads=t)
          for k in CLS for c, t in ((1, 1), (3, 2), (2, 3))]
Q_comp += [dict(kind="cosine", base=P3, target=[[0, 1, 2], [1]], n_feat=3, params=RAW, top_k=t, chunk=1, threads=1) for t in (0, 1, 2)]
HARNESSES = [H("item", item, Q_item, [dict(kind="cosine", pattern=P4, n=4, params=RAW, top_k=t) for t in (1, 2)]),
             H("user", user, Q_user), H("computer", computer, Q_comp), H("rejects", rejects, [dict()])]
