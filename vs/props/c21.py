"""Early stopping: the model keeps the state of its best validated epoch."""
import contextlib
import io
import json

import numpy as np
import scipy.sparse

from ..ctx import H

ID = "C21"
MODULES = ["_core_evaluator"]
FUNCTIONS = ["irspack.recommenders.base_earlystop.BaseRecommenderWithEarlyStopping.learn_with_optimizer / _learn / start_learning / "
             "run_epoch / save_state / load_state"]
BOUNDS = ("up to 8 epochs (quick) / 12 (thorough), validation every 1..4 epochs, 1..4 allowed degradations, arbitrary real validation "
          "scores per epoch (ties included), pruning decision free at every report, with and without trial, one relearning")


def build(ctx, scores, log):
    from irspack.evaluation import Evaluator
    from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase

    class Trainer(TrainerBase):
        def __init__(self):
            self.epoch = 0
            log.append("new")

        def run_epoch(self):
            self.epoch += 1
            log.append(("run", self.epoch))

        def save_state(self, ofs):
            ofs.write(json.dumps([self.epoch, "x" * self.epoch]).encode())

        def load_state(self, ifs):
            e, pad = json.loads(ifs.read().decode())
            assert pad == "x" * e
            self.epoch = e

    class Rec(BaseRecommenderWithEarlyStopping, register_class=False):
        trainer_class = Trainer

        def _create_trainer(self):
            return Trainer()

        def get_score(self, user_indices):
            raise AssertionError("not used")

    class Ev(Evaluator):
        def __init__(self):
            super().__init__(scipy.sparse.csr_matrix(np.ones((1, 2))), offset=0, cutoff=1, n_threads=1, target_metric="recall")

        def get_score(self, model):
            log.append(("eval", model.trainer.epoch))
            return {"recall": scores[model.trainer.epoch - 1], "ndcg": -scores[model.trainer.epoch - 1], "hit": 0.0}

    return Rec, Ev


class Trial:
    def __init__(self, ctx, prune):
        self.ctx, self.reports, self.n, self.prune = ctx, [], 0, prune
        self.pruned = False

    def report(self, value, step):
        self.reports.append((value, step))

    def should_prune(self):
        self.n += 1
        r = self.prune and bool(self.ctx.bool(f"prune{self.n}"))
        self.pruned = self.pruned or r
        return r


def early(ctx, max_epoch, every, degr, trial=False, prune=False, evaluator=True, twice=False, via=None):
    from optuna.exceptions import TrialPruned

    log = []
    scores = [ctx.real(f"s{e}") for e in range(max_epoch)]
    Rec, Ev = build(ctx, scores, log)
    X = scipy.sparse.csr_matrix(np.ones((1, 2)))
    rec = Rec(X, train_epochs=max_epoch)
    ev = Ev() if evaluator else None
    tr = Trial(ctx, prune) if trial else None
    with contextlib.redirect_stdout(io.StringIO()):
        if via == "learn":
            r, err = ctx.call(lambda: rec.learn())
            ctx.check("learn returns itself", r is rec)
        else:
            if twice:
                rec.learn_with_optimizer(ev, None, max_epoch=max_epoch, validate_epoch=every, score_degradation_max=degr)
                del log[:]
            _, err = ctx.call(lambda: rec.learn_with_optimizer(ev, tr, max_epoch=max_epoch, validate_epoch=every, score_degradation_max=degr),
                              TrialPruned)
    # what should have happened
    runs, evals, best, best_epoch, bad, pruned, nrep = 0, [], None, None, 0, False, 0
    reports = []
    for e in range(1, max_epoch + 1):
        runs = e
        if e % every or not evaluator:
            continue
        evals.append(e)
        s = scores[e - 1]
        if best is None or bool(s > best):
            best, best_epoch, bad = s, e, 0
        else:
            bad += 1
            if bad >= degr:
                break
        if trial:
            reports.append((-s, e - 1))
            nrep += 1
            if prune and bool(ctx.bool(f"prune{nrep}")):
                pruned = True
                break
    got_runs = [x[1] for x in log if x[0] == "run"]
    ctx.check("epochs run one after another up to the stop", got_runs == list(range(1, runs + 1)))
    ctx.check("validated at the right epochs", [x[1] for x in log if x[0] == "eval"] == evals)
    ctx.check("one trainer", log.count("new") == 1 and log[0] == "new")
    if trial:
        ctx.check("reports made", [x[1] for x in tr.reports] == [x[1] for x in reports])
        for k, (a, b) in enumerate(zip(tr.reports, reports)):
            ctx.eq(f"reported value {k}", a[0], b[0])
    ctx.check("pruned iff the pruner says so", (err is not None) == pruned)
    if not pruned:
        if evaluator:
            ctx.check("state of the best validated epoch is kept", rec.trainer.epoch == best_epoch)
            ctx.check("learnt epochs", rec.learnt_config.get("train_epochs") == best_epoch and set(rec.learnt_config) == {"train_epochs"})
        else:
            ctx.check("all epochs trained", rec.trainer.epoch == max_epoch)
            ctx.check("nothing learnt about epochs", rec.learnt_config == {})
    ctx.reach("early")


def state(ctx):
    """states are restored as saved, whatever happens in between"""
    log = []
    Rec, _ = build(ctx, [], log)
    rec = Rec(scipy.sparse.csr_matrix(np.ones((1, 2))))
    for f in (rec.run_epoch, rec.save_state, rec.load_state):
        ctx.raises("not started", RuntimeError, f)
    rec.start_learning()
    ctx.raises("nothing saved", RuntimeError, rec.load_state)
    saved, now = None, 0
    for k in range(5):
        op = ctx.choice(f"op{k}", ["run", "save", "load"])
        if op == "run":
            rec.run_epoch()
            now += 1
        elif op == "save":
            rec.save_state()
            saved = now
        elif saved is not None:
            rec.load_state()
            now = saved
        ctx.check(f"epoch after step {k}", rec.trainer.epoch == now)
    ctx.reach("state")


HARNESSES = [
    H("early", early,
      [dict(max_epoch=m, every=v, degr=d) for m, v, d in ((5, 1, 2), (6, 1, 3), (5, 1, 1), (8, 2, 2), (7, 3, 1), (8, 2, 5), (4, 4, 1), (6, 1, 5))]
      + [dict(max_epoch=5, every=1, degr=2, trial=True), dict(max_epoch=4, every=1, degr=2, trial=True, prune=True),
         dict(max_epoch=8, every=3, degr=2, trial=True, prune=True), dict(max_epoch=3, every=1, degr=2, twice=True),
         dict(max_epoch=5, every=2, degr=2, evaluator=False), dict(max_epoch=3, every=1, degr=1, evaluator=False, trial=True),
         dict(max_epoch=4, every=1, degr=1, evaluator=False, via="learn")],
      [dict(max_epoch=m, every=v, degr=d, trial=t) for m, v, d, t in ((8, 1, 3, False), (7, 1, 4, True), (12, 2, 3, False), (12, 3, 2, True))]
      + [dict(max_epoch=5, every=1, degr=3, trial=True, prune=True)], seeds=1),
    H("state", state, [dict()], seeds=1),
]
