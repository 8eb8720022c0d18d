"""Hyper-parameter tuning returns the best trial's parameters and a faithful history."""
import contextlib
import io
import logging
import math
from unittest import mock

import numpy as np
import pandas as pd
import scipy.sparse

from ..ctx import H
from .c02 import _col

ID = "C22"
MODULES = ["_core_evaluator"]
FUNCTIONS = ["irspack.optimization.optimizer.Optimizer.objective_function / optimize_with_study", "add_score_to_trial, study_to_dataframe",
             "BaseRecommender.tune / default_suggest_parameter", "IALSRecommender.tune / tune_doubling_dimension"]
BOUNDS = ("studies of up to 4 trials with arbitrary real scores (ties included) and arbitrary suggested values inside the declared ranges, trials "
          "pruned or completed, resumed studies, two workers on one study with the switch at any study access; doubling over up to 3 dimensions; "
          "the optuna study is modelled (minimum over completed trials, first on ties; pruned trials keep their last reported value), and "
          "counterexamples and sampled traces run on the real optuna")


class FakeTrial:
    def __init__(self, study, number):
        self.study, self.number = study, number
        self.params, self.user_attrs, self.dists = {}, {}, {}
        self.reported, self.state, self.value = None, "RUNNING", None

    def _suggest(self, name, make, dist):
        if name not in self.params:
            self.params[name] = make(f"{self.study.tag}t{self.number}.{name}")
            self.dists[name] = dist
        return self.params[name]

    def suggest_float(self, name, low, high, *, step=None, log=False):
        return self._suggest(name, lambda n: self.study.ctx.real(n, lo=low, hi=high, default=low), ("float", low, high, log))

    def suggest_int(self, name, low, high, *, step=1, log=False):
        return self._suggest(name, lambda n: self.study.ctx.choice(n, [low, high]), ("int", low, high, step, log))

    def suggest_categorical(self, name, choices):
        return self._suggest(name, lambda n: self.study.ctx.choice(n, list(choices)), ("cat", tuple(choices)))

    def set_user_attr(self, k, v):
        self.study.touch()
        self.user_attrs[k] = v

    def report(self, v, step):
        self.reported = v

    def should_prune(self):
        return bool(self.study.ctx.bool(f"{self.study.tag}prune{self.number}")) if self.study.prune else False


class FakeStudy:
    """model of an optuna study (minimisation)"""

    def __init__(self, ctx, tag="", prune=False, direction="minimize", **kw):
        self.ctx, self.tag, self.prune, self.kw = ctx, tag, prune, kw
        self.sign = 1 if direction in (None, "minimize") else -1
        self.trials, self._attrs = [], {}
        self.other, self.at, self.step = None, None, 0

    def touch(self):
        """another worker of the same study may run here"""
        k = self.step
        self.step += 1
        if self.other is not None and bool(self.at == k):
            job, self.other = self.other, None
            job()

    @property
    def user_attrs(self):
        self.touch()
        return {k: (list(v) if isinstance(v, list) else v) for k, v in self._attrs.items()}

    def set_user_attr(self, k, v):
        self.touch()
        self._attrs[k] = v

    def run_one(self, func):
        from optuna.exceptions import TrialPruned

        t = FakeTrial(self, len(self.trials))
        self.trials.append(t)
        try:
            t.value = func(t)
            t.state = "COMPLETE"
        except TrialPruned:
            t.value, t.state = t.reported, "PRUNED"
        return t

    def optimize(self, func, n_trials=None, timeout=None, **kw):
        for _ in range(n_trials):
            self.run_one(func)

    @property
    def best_trial(self):
        best = None
        for t in self.trials:
            if t.state == "COMPLETE" and (best is None or bool(self.sign * t.value < self.sign * best.value)):
                best = t
        if best is None:
            raise ValueError("No trials are completed yet.")
        return best

    best_params = property(lambda self: self.best_trial.params)
    best_value = property(lambda self: self.best_trial.value)

    def trials_dataframe(self, *a, **k):
        d = {"number": [t.number for t in self.trials], "value": [t.value for t in self.trials]}
        for pre, get in (("params_", lambda t: t.params), ("user_attrs_", lambda t: t.user_attrs)):
            for key in sorted({x for t in self.trials for x in get(t)}):
                d[pre + key] = [get(t).get(key, np.nan) for t in self.trials]
        d["state"] = [t.state for t in self.trials]
        out = pd.DataFrame()
        for c, v in d.items():
            out[c] = _col(v) if self.ctx.symbolic else pd.Series(v)
        return out


def real_study(ctx, tag, prune, n, **kw):
    """the real optuna, proposing the values of the model"""
    import optuna

    class Fixed(optuna.samplers.BaseSampler):
        def infer_relative_search_space(self, study, trial):
            return {}

        def sample_relative(self, study, trial, space):
            return {}

        def sample_independent(self, study, trial, name, dist):
            key = f"{tag}t{trial.number}.{name}"
            if isinstance(dist, optuna.distributions.CategoricalDistribution):
                return ctx.choice(key, list(dist.choices))
            if isinstance(dist, optuna.distributions.IntDistribution):
                return ctx.choice(key, [dist.low, dist.high])
            return ctx.real(key, lo=dist.low, hi=dist.high, default=dist.low)

    class Prune(optuna.pruners.BasePruner):
        def prune(self, study, trial):
            return prune and bool(ctx.bool(f"{tag}prune{trial.number}"))

    kw.pop("sampler", None), kw.pop("pruner", None), kw.pop("storage", None)
    return optuna.study.create_study(sampler=Fixed(), pruner=Prune(), **kw)


METRICS = ("recall", "ndcg")


def models(ctx, kind, calls, tag=lambda: ""):
    from irspack.evaluation import Evaluator
    from irspack.optimization import CategoricalRange, LogUniformFloatRange, UniformFloatRange, UniformIntegerRange
    from irspack.recommenders.base import BaseRecommender
    from irspack.recommenders.ials import IALSRecommender

    class Rec(BaseRecommender, register_class=False):
        default_tune_range = [UniformFloatRange("a", 0, 1), LogUniformFloatRange("b", 1, 8), UniformIntegerRange("n", 2, 5),
                              CategoricalRange("flag", ["x", "y"])]

        def __init__(self, X, **params):
            super().__init__(X)
            self.X_given, self.params = X, params
            calls.append(self)

        def _learn(self):
            pass

        def learn_with_optimizer(self, evaluator, trial, max_epoch=128, validate_epoch=5, score_degradation_max=5):
            from optuna.exceptions import TrialPruned

            self.epochs, self.trial, self.evaluator = (max_epoch, validate_epoch, score_degradation_max), trial, evaluator
            self.number = trial.number
            self.name = f"{tag()}{self.number}"
            trial.report(-ctx.real(f"{tag()}i{self.number}"), 0)
            if trial.should_prune():
                self.pruned = True
                raise TrialPruned()
            self.pruned = False
            if "early" in kind:
                self.learnt_config["train_epochs"] = 7 + self.number

        def get_score(self, idx):
            raise AssertionError("not used")

    class Ials(IALSRecommender, register_class=False):
        def __init__(self, X, **params):
            super().__init__(X, **{k: (1.0 if k in ("alpha0", "reg") and ctx.symbolic else v) for k, v in params.items()})
            self.X_given, self.params = X, params
            calls.append(self)

        learn_with_optimizer = Rec.learn_with_optimizer

    class Ev(Evaluator):
        def __init__(self, metric, cutoff):
            super().__init__(scipy.sparse.csr_matrix(np.ones((1, 2))), offset=0, cutoff=cutoff, n_threads=1, target_metric=metric)

        def get_score(self, model):
            return {m: ctx.real(f"{m}{model.name}") for m in METRICS}

    return Rec, Ials, Ev


def _studies(ctx, prune, n, made, fake=False):
    """replacement of optuna.create_study"""

    def create(*a, **kw):
        tag = f"s{len(made)}." if made or "study_name" in kw else ""
        if ctx.symbolic or fake:
            kw.pop("storage", None)
            st = FakeStudy(ctx, tag, prune, kw.pop("direction", None), **kw)
        else:
            st = real_study(ctx, tag, prune, n, **kw)
        made.append(st)
        return st

    return create


def _nan(x):
    return isinstance(x, float) and math.isnan(x) or x is None


def history(ctx, df, recs, metric, cutoff, fixed):
    ctx.check("one row per trial", list(df.index) == [r.number for r in recs])
    for r in recs:
        row = df.loc[r.number]
        if r.pruned:
            for m in METRICS:
                ctx.check("no score for a pruned trial", f"{m}@{cutoff}" not in df.columns or _nan(row[f"{m}@{cutoff}"]))
        else:
            ctx.eq(f"value of trial {r.number}", row["value"], -ctx.real(f"{metric}{r.name}"))
            for m in METRICS:
                ok = f"{m}@{cutoff}" in df.columns and not _nan(row[f"{m}@{cutoff}"])
                ctx.check(f"{m} recorded for trial {r.number}", ok)
                if ok:
                    ctx.eq(f"{m} of trial {r.number}", row[f"{m}@{cutoff}"], ctx.real(f"{m}{r.name}"))
        for k, v in r.params.items():
            if k not in fixed and k != "constant" and k not in r.learnt_config:
                _same(ctx, f"param {k} of trial {r.number}", row[k], v)


def _same(ctx, label, a, b):
    if isinstance(b, str):
        ctx.check(label, a == b)
    else:
        ctx.eq(label, a, b)


def best_of(ctx, recs, metric):
    best = None
    for r in recs:
        if not r.pruned:
            s = ctx.real(f"{metric}{r.name}")
            if best is None or bool(s > best[0]):
                best = (s, r)
    return best


def tune(ctx, n, kind="plain", fixed=None, prune=False, own=False, custom=None, metric="recall", cutoff=3, resume=0, data_fn=False, dup=False):
    import optuna

    calls, made = [], []
    Rec, _, Ev = models(ctx, kind, calls)
    fixed = dict(fixed or {})
    ev = Ev(metric, cutoff)
    X = scipy.sparse.csr_matrix(np.ones((2, 2)))
    create = _studies(ctx, prune, n, made)
    kw = dict(logger=logging.getLogger("vs-quiet"))
    kw["logger"].setLevel(logging.CRITICAL)
    if own:
        kw["study"] = create()
    if custom:
        def suggest(trial):
            r = {k: trial.suggest_float(k, 0, 2) for k in custom}
            r["constant"] = 5
            return r
        kw["parameter_suggest_function"] = suggest
    if dup:
        kw["parameter_suggest_function"] = lambda trial: {"train_epochs": trial.suggest_int("train_epochs", 1, 3)}
    datas = []
    if data_fn:
        def dsf(trial):
            datas.append(scipy.sparse.csr_matrix(np.ones((2, 2)) * (trial.number + 1)))
            return datas[-1]
        kw["data_suggest_function"] = dsf
    if resume:
        Rec.tune(X, ev, n_trials=resume, **kw, **fixed)
    with mock.patch.object(optuna, "create_study", create), contextlib.redirect_stderr(io.StringIO()):
        bp, err = ctx.call(lambda: Rec.tune(None if data_fn else X, ev, n_trials=n, max_epoch=21, validate_epoch=3, score_degradation_max=4, **kw, **fixed),
                           ValueError)
    recs = calls
    best = best_of(ctx, recs, metric)
    ctx.check("every trial builds one model", [r.number for r in recs] == list(range(n + resume)))
    ctx.check("one study", len(made) == 1)
    for k, r in enumerate(recs):
        ctx.check("data", (r.X_given is datas[k]) if data_fn else (r.X_given is X))
        ctx.check("evaluator and trial passed on", r.evaluator is ev)
        if k >= resume:
            ctx.check("epoch settings passed on", r.epochs == (21, 3, 4))
        for name, v in fixed.items():
            ctx.check(f"fixed {name} used", r.params.get(name) == v and isinstance(r.params[name], type(v)))
        names = (set(custom) | {"constant"}) if custom else {"train_epochs"} if dup else {"a", "b", "n", "flag"}
        ctx.check("exactly the suggested and fixed parameters", set(r.params) == names | set(fixed))
        for name in names - set(fixed) - {"constant"}:
            key = f"t{r.number}.{name}"
            if custom:
                want = ctx.real(key, lo=0, hi=2, default=0)
            elif name == "n":
                want = ctx.choice(key, [2, 5])
            elif name == "train_epochs":
                want = ctx.choice(key, [1, 3])
            elif name == "flag":
                want = ctx.choice(key, ["x", "y"])
            else:
                want = ctx.real(key, lo=0 if name == "a" else 1, hi=1 if name == "a" else 8, default=0 if name == "a" else 1)
            _same(ctx, f"suggested {name}", r.params[name], want)
    if best is None:
        ctx.check("no completed trial is an error", err is not None)
        ctx.reach("none")
        return
    ctx.check("tuning succeeds", err is None)
    bp, df = bp
    b = best[1]
    want = {k: v for k, v in b.params.items() if k not in fixed and k != "constant"}
    if custom:
        # parameters suggested by a custom function are reported as suggested, even if overridden by a fixed one
        want.update({k: ctx.real(f"t{b.number}.{k}", lo=0, hi=2, default=0) for k in custom if k in fixed})
    if "early" in kind:
        want["train_epochs"] = 7 + b.number
    ctx.check("best parameters: names", set(bp) == set(want))
    for k in want:
        if k in bp:
            _same(ctx, f"best {k}", bp[k], want[k])
    history(ctx, df, recs, metric, cutoff, fixed)
    ctx.reach("tune")


def workers(ctx, first=0, metric="recall", cutoff=3):
    """two workers on one study: whatever the interleaving, no trial's scores are lost"""
    from irspack.optimization.optimizer import Optimizer, study_to_dataframe

    calls, made = [], []
    Rec, _, Ev = models(ctx, "early", calls)
    study = FakeStudy(ctx)
    lg = logging.getLogger("vs-quiet")
    lg.setLevel(logging.CRITICAL)

    def opt():
        return Optimizer(lambda t: scipy.sparse.csr_matrix(np.ones((2, 2))), lambda t: {"a": t.suggest_float("a", 0, 1)}, {}, Ev(metric, cutoff), logger=lg)

    f, g = opt().objective_function(Rec), opt().objective_function(Rec)
    for _ in range(first):
        study.run_one(f)
    study.step = 0
    study.other, study.at = (lambda: study.run_one(g)), ctx.int("at", 0, 5)
    study.run_one(f)
    if study.other is not None:
        study.other = None
        study.run_one(g)
    df = study_to_dataframe(study)
    history(ctx, df, sorted(calls, key=lambda r: r.number), metric, cutoff, {})
    ctx.reach("workers")


def doubling(ctx, dims, start, n0=1, n1=1, prune=False, scale=3.0, custom=False):
    import optuna

    calls, made = [], []
    tag = lambda: f"s{len(made) - 1}."
    _, Ials, Ev = models(ctx, "early", calls, tag)
    ev = Ev("recall", 3)
    X = scipy.sparse.csr_matrix(np.ones((2, 2)))
    create = _studies(ctx, prune, max(n0, n1), made)
    lows = {"alpha0": (0.003, 1), "reg": (0.0001, 0.1)}
    log = logging.getLogger("IRSPACK")
    lvl = log.level
    log.setLevel(logging.CRITICAL)
    try:
        with mock.patch.object(optuna, "create_study", create), contextlib.redirect_stderr(io.StringIO()):
            res = Ials.tune_doubling_dimension(X, ev, start, start * 2 ** (dims - 1) + (start > 2), n_trials_initial=n0, n_trials_following=n1,
                                               neighborhood_scale=scale, max_epoch=6, validate_epoch=2, score_degradation_max=1)
    finally:
        log.setLevel(lvl)
    bp, df = res
    ctx.check("one study per dimension", len(made) == dims)
    per = [[r for r in calls if r.name.startswith(f"s{d}.")] for d in range(dims)]
    ctx.check("numbers of trials", [len(p) for p in per] == [n0] + [n1] * (dims - 1))
    prev, tot = None, None
    for d, recs in enumerate(per):
        dim = start * 2 ** d
        for r in recs:
            ctx.check("dimension", r.params.get("n_components") == dim)
            ctx.check("parameters", set(r.params) == {"n_components", "alpha0", "reg"})
            ctx.check("epochs", r.epochs == (6, 2, 1))
            for name, (lo, hi) in lows.items():
                v = r.params[name]
                if prev is None:
                    ctx.le(f"{name} above the range", lo, v)
                    ctx.le(f"{name} below the range", v, hi)
                else:
                    p = prev.params[name]
                    ctx.le(f"{name} within the neighbourhood", v, p * scale)
                    ctx.le(f"{name} within the neighbourhood (low)", p, v * scale)
        b = best_of(ctx, recs, "recall")
        prev = b[1]
        if tot is None or bool(b[0] > tot[0]):
            tot = (b[0], b[1], dim)
    ctx.eq("best overall n_components", bp["n_components"], tot[2])
    for name in lows:
        ctx.eq(f"best overall {name}", bp[name], tot[1].params[name])
    ctx.check("learnt epochs", bp["train_epochs"] == 7 + tot[1].number)
    ctx.check("names", set(bp) == {"n_components", "alpha0", "reg", "train_epochs"})
    ctx.check("history of all dimensions", list(df["n_components"]) == [start * 2 ** d for d in range(dims) for _ in per[d]])
    ctx.reach("doubling")


HARNESSES = [
    H("tune", tune,
      [dict(n=3), dict(n=2, kind="early", own=True), dict(n=2, fixed={"a": 0.25, "extra": "z"}), dict(n=2, fixed={"flag": "y", "n": 3}, metric="ndcg", cutoff=7),
       dict(n=3, prune=True, custom=["u"]), dict(n=2, custom=["u", "v"], fixed={"v": 1.5}), dict(n=1, own=True, resume=2, custom=["u"]),
       dict(n=2, custom=["u"], data_fn=True), dict(n=2, kind="early", dup=True),
       dict(n=2, fixed={"extra": None, "n": 0})],
      [dict(n=4, custom=["u"], prune=True), dict(n=4, kind="early", prune=True, own=True, custom=["u", "v"])], seeds=1),
    H("workers", workers, [dict(first=0), dict(first=1)], [dict(first=2)], seeds=1),
    H("doubling", doubling, [dict(dims=1, start=2), dict(dims=2, start=2), dict(dims=3, start=3, scale=2.0), dict(dims=2, start=4, n0=2)],
      [dict(dims=2, start=2, n0=2, n1=2), dict(dims=3, start=2, n0=2, n1=2)], seeds=1),
]
