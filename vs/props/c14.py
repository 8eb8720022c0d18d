from ..ctx import H
from .c13 import compare, topk

ID = "C14"
MODULES = ["_util_cpp", "_knn"]
FUNCTIONS = ["irspack.recommenders.P3alphaRecommender / RP3betaRecommender", "irspack.utils.l1_normalize_row",
             "knn/similarities.hpp P3alphaComputer, RP3betaComputer; knn/knn.hpp top-k and blocking (compiled from source)"]
BOUNDS = ("up to 4 items x 3 users (plus a 130-item matrix crossing the 128-row work block), arbitrary positive interaction values, "
          "alpha and beta arbitrary non-negative reals (x^p uninterpreted beyond identities), top_k 1..n or unset, 1..3 threads")


def walk(ctx, kind, pattern, n, alpha, beta=None, top_k=None, normalize=False, threads=1, ones=False, fmt="csr"):
    from irspack.recommenders import P3alphaRecommender, RP3betaRecommender

    X = ctx.sparse("x", pattern, n, fmt=fmt, **({"values": 1.0} if ones else {"pos": True, "hi": 16}))
    x = ctx.entries(X)
    a = ctx.real("alpha", lo=0, hi=3) if alpha == "sym" else alpha
    kw = dict(alpha=a, top_k=top_k, normalize_weight=normalize, n_threads=threads)
    if kind == "rp3":
        b = ctx.real("beta", lo=0, hi=3) if beta == "sym" else beta
        rec = RP3betaRecommender(X, beta=b, **kw).learn()
    else:
        rec = P3alphaRecommender(X, **kw).learn()
    p = {k: ctx.pow(v, a) for k, v in x.items()}
    users, items = range(len(pattern)), range(n)
    isum = {i: sum((p[u, i] for u in users if (u, i) in p), ctx.const(0)) for i in items}
    usum = {u: sum((p[u, i] for i in pattern[u]), ctx.const(0)) for u in users}
    want = {}
    for j in items:
        col = []
        for i in items:
            us = [u for u in users if (u, i) in p and (u, j) in p]
            if not us:
                continue
            w = ctx.const(0)
            for u in us:
                pui = ctx.div(p[u, j], usum[u])
                if kind == "rp3":
                    pop = sum((x[v, j] for v in users if (v, j) in x), ctx.const(0))
                    pui = ctx.div(p[u, j], usum[u] * ctx.pow(pop, b))
                w = w + ctx.div(p[u, i], isum[i]) * pui
            col.append((w, i))
        keep = topk(col, top_k) if top_k is not None and top_k < len(col) else {i for _, i in col}
        for w, i in col:
            if i in keep:
                want[i, j] = w
    if normalize:
        tot = {i: sum((w for (r, _), w in want.items() if r == i), ctx.const(0)) for i in items}
        want = {(i, j): ctx.div(w, tot[i]) for (i, j), w in want.items()}
    compare(ctx, "W", rec.W, n, n, want)
    if top_k is not None:
        g = ctx.entries(rec.W)
        for j in items:
            ctx.check(f"column {j} at most top_k", sum(1 for (r, c) in g if c == j) <= top_k)


def rejects(ctx):
    from irspack.recommenders import P3alphaRecommender, RP3betaRecommender

    X = ctx.sparse("x", [[0, 1], [1]], 2, values=1.0)
    E = (ValueError, RuntimeError)
    v = ctx.real("v")
    ctx.assume(v < 0)
    kind = ctx.choice("kind", ["p3", "rp3 alpha", "rp3 beta", "threads"])
    if kind == "p3":
        ctx.raises(kind, E, lambda: P3alphaRecommender(X, alpha=v, n_threads=1).learn())
    elif kind == "rp3 alpha":
        ctx.raises(kind, E, lambda: RP3betaRecommender(X, alpha=v, n_threads=1).learn())
    elif kind == "rp3 beta":
        ctx.raises(kind, E, lambda: RP3betaRecommender(X, beta=v, n_threads=1).learn())
    else:
        ctx.raises(kind, E, lambda: P3alphaRecommender(X, n_threads=0).learn())


P = [[0, 1], [1, 2], [0, 3]]
P2 = [[0, 1, 2], [1], []]
LONG = [[0, 1, 128, 129], [1, 128], [0, 127, 129]]
HARNESSES = [
    H("walk", walk,
      [dict(kind="p3", pattern=p, n=n, alpha="sym", ones=o) for p, n in ((P, 4), (P2, 4)) for o in (False, True)]
      + [dict(kind="rp3", pattern=p, n=n, alpha="sym", beta="sym", fmt=f) for p, n, f in ((P, 4, "csr"), (P2, 4, "csc"))]
      + [dict(kind="p3", pattern=P, n=4, alpha=1.0, threads=t) for t in (2, 3)]
      + [dict(kind=k, pattern=P, n=4, alpha=1.0, beta=b, top_k=0, ones=True) for k, b in (("p3", None), ("rp3", 1.0))]
      + [dict(kind=k, pattern=[[0, 1], [1]], n=2, alpha=1.0, beta=b, threads=3) for k, b in (("p3", None), ("rp3", 1.0))]
      + [dict(kind="p3", pattern=[[0, 1], [1, 2]], n=3, alpha=1.0, top_k=k) for k in (1, 2)]
      + [dict(kind="rp3", pattern=[[0, 1], [1]], n=2, alpha=1.0, beta=1.0, top_k=1)]
      + [dict(kind="rp3", pattern=[[0, 1], [1, 2]], n=3, alpha=1.0, beta="sym", top_k=k, ones=True) for k in (1, 2)]
      + [dict(kind="p3", pattern=P, n=4, alpha=1.0, top_k=k, normalize=True, ones=True) for k in (1, 2, None)]
      + [dict(kind=k, pattern=[[0, 1], [1]], n=2, alpha=1.0, beta=0.5, normalize=True) for k in ("p3", "rp3")]
      + [dict(kind="p3", pattern=LONG, n=130, alpha=1.0, top_k=2, ones=True, threads=t) for t in (1, 2)]
      + [dict(kind="rp3", pattern=LONG, n=130, alpha=2.0, beta=1.0, ones=True, threads=3)],
      [dict(kind="p3", pattern=[[0, 1, 2], [1, 2]], n=3, alpha=2.0, top_k=k) for k in (1, 2)]),
    H("rejects", rejects, [dict()]),
]
