"""Search ranges and configurations reach the recommenders unchanged."""
import inspect
import warnings

import numpy as np
import scipy.sparse

from ..ctx import H

ID = "C23"
MODULES = []
FUNCTIONS = ["irspack.optimization.parameter_range (all range classes)", "BaseRecommender.default_suggest_parameter / from_config",
             "get_recommender_class", "constructors and default_tune_range of every importable recommender"]
BOUNDS = "one range / one default search space at a time; arbitrary real or integer bounds, steps 1..3, every subset of fixed parameters up to 4 names"


class Trial:
    """strict stand-in: returns an arbitrary admissible value and records the request"""

    def __init__(self, ctx):
        self.ctx, self.asked = ctx, []

    def suggest_float(self, name, low, high, *, step=None, log=False):
        v = self.ctx.real("v." + name, lo=low, hi=high, default=0)
        self.asked.append(("float", name, low, high, log, v))
        return v

    def suggest_int(self, name, low, high, *, step=1, log=False):
        v = self.ctx.int("v." + name, low, high)
        self.asked.append(("int", name, low, high, step, log, v))
        return v

    def suggest_categorical(self, name, choices):
        v = self.ctx.choice("v." + name, list(choices))
        self.asked.append(("cat", name, tuple(choices), v))
        return v


def ranges(ctx, kind, prefix=""):
    from irspack import optimization as o

    if kind == "CategoricalRange":
        ch = ["x", 3, None, True]
        t = Trial(ctx)
        v = o.CategoricalRange("p_1", list(ch)).suggest(t, *([prefix] if prefix else []))
        ctx.check("asked", len(t.asked) == 1 and t.asked[0][:3] == ("cat", prefix + "p_1", tuple(ch)))
        ctx.check("value", v is t.asked[0][-1] and v in ch)
        ctx.reach("range")
        return
    integer, log = "Integer" in kind, kind.startswith("Log")
    if integer:
        low, high = ctx.int("low", -20, 20), ctx.int("high", -20, 20)
    else:
        low, high = ctx.real("low"), ctx.real("high")
    step = ctx.choice("step", [None, 1, 3]) if kind == "UniformIntegerRange" else None
    kw = {} if step is None else {"step": step}
    r, err = ctx.call(lambda: getattr(o, kind)("name-1", low, high, **kw), ValueError)
    if bool(low > high):
        ctx.check("empty range rejected", err is not None)
        ctx.reach("range")
        return
    ctx.check("proper range accepted", err is None)

    class Rec(Trial):
        def suggest_float(self, name, low, high, *, step=None, log=False):
            self.asked.append(("float", name, low, high, step, log))
            return ctx.real("v")

        def suggest_int(self, name, low, high, *, step=1, log=False):
            self.asked.append(("int", name, low, high, step, log))
            return 3

    t = Rec(ctx)
    v = r.suggest(t, prefix) if prefix else r.suggest(t)
    ctx.check("asked once", len(t.asked) == 1)
    k, name, lo, hi, st, lg = t.asked[0]
    ctx.check("request", k == ("int" if integer else "float") and name == prefix + "name-1" and bool(lg) == log)
    ctx.check("step", st in ((step or 1,) if integer else (None,)))
    ctx.eq("low", lo, low)
    ctx.eq("high", hi, high)
    ctx.eq("value", v, 3 if integer else ctx.real("v"))
    ctx.reach("range")


NAMES = ["TopPopRecommender", "P3alphaRecommender", "RP3betaRecommender", "DenseSLIMRecommender", "EDLAERecommender", "SLIMRecommender",
         "CosineKNNRecommender", "JaccardKNNRecommender", "TverskyIndexKNNRecommender", "AsymmetricCosineKNNRecommender",
         "CosineUserKNNRecommender", "AsymmetricCosineUserKNNRecommender", "IALSRecommender", "NMFRecommender", "TruncatedSVDRecommender"]


def _cls(name):
    from irspack import recommenders as r

    if hasattr(r, name):
        return getattr(r, name)
    from irspack.recommenders.nmf import NMFRecommender
    from irspack.recommenders.truncsvd import TruncatedSVDRecommender

    return {"NMFRecommender": NMFRecommender, "TruncatedSVDRecommender": TruncatedSVDRecommender}[name]


def _same(ctx, label, a, b):
    if isinstance(b, (str, bool, type(None), list)):
        ctx.check(label, type(a) is type(b) and a == b)
    else:
        ctx.eq(label, a, b)


def defaults(ctx, name):
    """the default search space: exactly the declared parameters that are not fixed, all accepted by the recommender"""
    cls = _cls(name)
    declared = [p.name for p in cls.default_tune_range]
    ctx.check("no parameter twice", len(set(declared)) == len(declared))
    sig = set(inspect.signature(cls.__init__).parameters) - {"self", "X_train_all", "kwargs"}
    ctx.check("declared parameters are arguments of the recommender", set(declared) <= sig)
    before = list(cls.default_tune_range)
    fixed = {n: ["fixed", None, 0, ""][k] for k, n in enumerate(declared) if k < 4 and ctx.choice(f"fix{k}", [False, True])}
    fixed["unrelated"] = 1
    t = Trial(ctx)
    got = cls.default_suggest_parameter(t, dict(fixed))
    ctx.check("suggested names", set(got) == set(declared) - set(fixed))
    ctx.check("asked names", sorted(a[1] for a in t.asked) == sorted(set(declared) - set(fixed)))
    for a in t.asked:
        if a[0] != "cat":
            ctx.check("range not empty", bool(a[2] <= a[3]))
            if a[-2]:
                ctx.check("log range positive", bool(a[2] > 0))
        if a[1] in got:
            _same(ctx, f"value {a[1]}", got[a[1]], a[-1])
    ctx.check("search space kept", list(cls.default_tune_range) == before)
    ctx.reach("defaults")


def config(ctx, name):
    """from_config builds the recommender with exactly the configured values"""
    warnings.simplefilter("ignore")
    cls = _cls(name)
    X = scipy.sparse.csr_matrix(np.array([[1.0, 0.0, 2.0], [0.0, 1.0, 1.0]]))
    cfg = cls.config_class()
    fields = dict(cfg.dict())
    seen = {}

    class Probe(cls, register_class=False):
        def __init__(self, X_train_all, *a, **kw):
            seen.update(kw)
            seen["_X"] = X_train_all
            seen["_n"] = len(a)

    vals = {}
    for k, v in fields.items():
        if isinstance(v, float) and not isinstance(v, bool):
            vals[k] = ctx.real("f." + k)
        elif type(v) is int:
            vals[k] = ctx.int("f." + k, 1, 50)
        else:
            vals[k] = v
    sig = inspect.signature(cls.__init__).parameters
    ctx.check("configured fields are arguments of the recommender", set(fields) <= set(sig) - {"self", "X_train_all"} or "kwargs" in sig)
    c = cls.config_class.construct(**vals)
    Probe.from_config(X, c)
    ctx.check("data passed on", seen.pop("_X") is X and seen.pop("_n") == 0)
    ctx.check("fields passed on", set(seen) == set(vals))
    for k in vals:
        if k in seen:
            _same(ctx, f"field {k}", seen[k], vals[k])
    # the recommender keeps them
    kw = {k: v for k, v in vals.items()}
    if name == "IALSRecommender":
        kw["n_threads"] = 1
    rec, err = ctx.call(lambda: cls(X, **kw), ValueError, TypeError)
    ctx.check("constructible", err is None)
    if err is None:
        for k, v in kw.items():
            a = getattr(rec, k, None)
            if name == "TruncatedSVDRecommender" and k == "n_components":
                continue        # limited to what the matrix admits
            if isinstance(v, (str, type(None))) or k == "n_threads" or not hasattr(rec, k):
                continue
            _same(ctx, f"attribute {k}", a, v)
    # a configuration of another recommender is refused
    other = _cls("TopPopRecommender" if name != "TopPopRecommender" else "DenseSLIMRecommender")
    if not issubclass(other.config_class, cls.config_class):
        ctx.raises("foreign configuration refused", ValueError, lambda: cls.from_config(X, other.config_class()))
    ctx.reach("config")


def registry(ctx):
    from irspack.recommenders import get_recommender_class

    n = ctx.choice("n", NAMES[:13])
    ctx.check("class by name", get_recommender_class(n) is _cls(n))
    ctx.raises("unknown name", (KeyError, ValueError), lambda: get_recommender_class("No" + n))
    from irspack.recommenders.base import BaseRecommender

    class Hidden(BaseRecommender, register_class=False):
        pass

    ctx.raises("unregistered class", (KeyError, ValueError), lambda: get_recommender_class("Hidden"))
    ctx.reach("registry")


RANGES = ["UniformFloatRange", "LogUniformFloatRange", "UniformIntegerRange", "LogUniformIntegerRange", "CategoricalRange"]
HARNESSES = [
    H("ranges", ranges, [dict(kind=k, prefix=p) for k in RANGES for p in ("", "pre.")], seeds=1),
    H("defaults", defaults, [dict(name=n) for n in NAMES], seeds=1),
    H("config", config, [dict(name=n) for n in NAMES], seeds=1),
    H("registry", registry, [dict()], seeds=1),
]
