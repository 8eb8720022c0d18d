"""Exploration driver: forked workers, work queue of decision prefixes,
per-path solver verdicts, replay of counterexamples on the native build."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction
from multiprocessing.connection import wait
from pathlib import Path as FPath

from . import core
from .core import ENG, Budget, Path, PathAbort, Unsupported, z3

VERIF = FPath(__file__).resolve().parent.parent
PY = sys.executable


# ---------------------------------------------------------------------------
def _value(model, v):
    if not isinstance(v, z3.ExprRef):
        return str(v)
    r = model.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return str(r.as_long())
    if z3.is_rational_value(r):
        return str(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return "0"


def _solve(p, extra, timeout):
    """-> (result, model)"""
    t0 = time.time()
    ENG.stats["check_queries"] += 1
    extra = [p.norm(c) for c in extra]
    s = p.solver
    s.push()
    try:
        s.set("timeout", min(timeout, 8000))
        s.add(*extra)
        r = s.check()
        m = s.model() if r == z3.sat else None
    finally:
        s.pop()
        s.set("timeout", ENG.branch_timeout)
    if r == z3.unknown:
        for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.Then("simplify", "solve-eqs", "smt").solver(),
                   lambda: z3.Solver()):
            try:
                q = mk()
                q.set("timeout", timeout)
                q.add(*p.pc)
                q.add(*extra)
                r = q.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                m = q.model() if r == z3.sat else None
                break
    dt = time.time() - t0
    ENG.stats["solver_time"] += dt
    return r, m


def _model_inputs(p, m):
    return {k: _value(m, v) for k, v in p.inputs.items()}


def _prefer(p):
    """soft preferences for readable, float-friendly models"""
    out = []
    for v in p.inputs.values():
        if isinstance(v, z3.ArithRef) and z3.is_real(v):
            out.append(z3.And(v <= 16, v >= -16))
    return out


def _spread(p, want=6, budget=20.0):
    """further models of the path condition, with inputs spread over simple values: for paths the engine cannot follow to the end"""
    import random

    rnd = random.Random(7)
    out, t0 = [], time.time()
    vs = [v for v in p.inputs.values() if isinstance(v, z3.ArithRef)]
    s = p.solver
    for k in range(want):
        if time.time() - t0 > budget:
            break
        s.push()
        try:
            s.set("timeout", 400)
            pend = [(v, rnd.randint(-3, 5) if z3.is_int(v) else Fraction(rnd.randint(-8, 24), 8) if k % 2 else Fraction(rnd.randint(1, 31), 32)) for v in vs]

            def fix(part):
                if not part or time.time() - t0 > budget:
                    return
                s.push()
                for v, c in part:
                    s.add(p.norm(v == (z3.IntVal(c) if z3.is_int(v) else z3.Q(c.numerator, c.denominator))))
                r = s.check()
                s.pop()
                if r == z3.sat:
                    for v, c in part:
                        s.add(p.norm(v == (z3.IntVal(c) if z3.is_int(v) else z3.Q(c.numerator, c.denominator))))
                elif len(part) > 1:
                    fix(part[:len(part) // 2])
                    fix(part[len(part) // 2:])

            fix(pend)
            if s.check() == z3.sat:
                out.append(_model_inputs(p, s.model()))
        except z3.Z3Exception:
            pass
        finally:
            s.pop()
            s.set("timeout", ENG.branch_timeout)
    ENG.stats["solver_time"] += time.time() - t0
    return out


def _candidates(p, neg_variants, timeout, want=4):
    """models of pc and each of the (weaker and weaker) negations"""
    out = []
    pref = _prefer(p)
    for extra in neg_variants:
        for soft in ((pref, []) if pref else ([],)):
            r, m = _solve(p, list(extra) + list(soft), timeout)
            if r == z3.sat:
                out.append(_model_inputs(p, m))
                break
        if len(out) >= want:
            break
    return out


def decide(p, timeout):
    """-> list of (label, [inputs...]), n_inconclusive, n_discharged"""
    if not p.checks:
        return [], [], 0
    r, m = _solve(p, [z3.Not(z3.And(*[c for _, c, _ in p.checks]))], timeout)
    n = len(p.checks)
    if r == z3.unsat:
        return [], [], n
    viol, inc = [], []
    for label, c, strong in p.checks:
        r, m = _solve(p, [z3.Not(c)], timeout)
        if r == z3.unsat:
            continue
        if strong:
            # equality up to the numerical tolerance of the replay
            r2, _ = _solve(p, [strong[-1]], timeout)
            if r2 == z3.unsat:
                ENG.stats["tolerance_discharged"] = ENG.stats.get("tolerance_discharged", 0) + 1
                continue
            if r2 == z3.sat or r == z3.sat:
                cands = _candidates(p, [[s] for s in strong] + [[z3.Not(c)]], min(timeout, 10000))
                if cands:
                    viol.append((label, cands))
                    continue
            inc.append(label)
        elif r == z3.sat:
            cands = _candidates(p, [[z3.Not(c)]], min(timeout, 10000)) or [_model_inputs(p, m)]
            viol.append((label, cands))
        else:
            inc.append(label)
        if len(viol) >= 3:
            break
    return viol, inc, n - len(viol) - len(inc)


# ---------------------------------------------------------------------------
class Explorer:
    """runs inside a worker process"""

    def __init__(self, irspack, harnesses, resets, rngcls, careful_file=None):
        self.irspack = irspack
        self.h = harnesses
        self.resets = resets
        self.rngcls = rngcls
        self.spreads = 0

    def run_path(self, hname, case, prefix, pin=None, choices=None, careful=None):
        from .ctx import SymCtx, Skip

        h = self.h[hname]
        for r in self.resets:
            r()
        p = Path(list(prefix), ENG)
        p.pin = pin or {}
        p.fixed_kinds = h.fixed
        p.scripted = list(choices) if choices is not None else None
        p.careful = careful
        ENG.path = p
        core.PICKLED.clear()
        res = {"status": "ok", "new": [], "viol": [], "inc": [], "checks": 0, "reached": []}
        ctx = SymCtx(p, self.irspack, self.rngcls)
        exc = None
        try:
            h.fn(ctx, **case)
        except PathAbort:
            res["status"] = "abort"
        except Budget:
            res["status"] = "budget"
        except Unsupported as e:
            res["status"] = "unsupported"
            exc = "Unsupported: " + str(e) + "\n" + traceback.format_exc(limit=-6)
        except Skip:
            res["status"] = "abort"
        except RecursionError as e:
            res["status"] = "unsupported"
            exc = repr(e) + "\n" + traceback.format_exc(limit=-4)
        except Exception as e:
            res["status"] = "exception"
            exc = repr(e) + "\n" + traceback.format_exc(limit=-6)
        res["new"] = p.new
        res["depth"] = len(p.trace)
        res["trace"] = p.trace
        res["choices"] = p.choices
        res["reached"] = list(p.reached)
        if res["status"] == "budget":
            ENG.path = None
            return res, p
        if res["status"] in ("unsupported", "exception"):
            r, m = _solve(p, _prefer(p), 5000)
            if r != z3.sat:
                r, m = _solve(p, [], ENG.check_timeout)
            if r == z3.unsat:
                res["status"] = "abort"
            else:
                res["exc"] = exc
                res["inputs"] = [_model_inputs(p, m)] if r == z3.sat else [{}]
                if r == z3.sat and self.spreads < 12:
                    self.spreads += 1
                    res["inputs"] += _spread(p)
                # obligations collected before the failure still count
                viol, _, _ = decide(p, 5000)
                res["viol"] = viol
        elif res["status"] == "ok":
            viol, inc, n = decide(p, ENG.check_timeout)
            if (viol or inc) and p.approx:
                r, _ = _solve(p, [], ENG.check_timeout)
                if r == z3.unsat:
                    viol, inc = [], []
            res["viol"], res["inc"], res["checks"] = viol, inc, ctx.nchecks
        ENG.path = None
        return res, p

    def sample(self, p):
        """a concrete model of the finished path (for validation)"""
        r, m = _solve(p, _prefer(p), 3000)
        if r != z3.sat:
            r, m = _solve(p, [], 3000)
        return _model_inputs(p, m) if r == z3.sat else None


def worker(conn, explorer, slice_s, cfg):
    import resource

    # progress bars and prints of the code under test do not mix with the verdict lines
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    resource.setrlimit(resource.RLIMIT_AS, (cfg.get("mem", 6 << 30), cfg.get("mem", 6 << 30)))
    ENG.branch_timeout = cfg["branch_timeout"]
    ENG.check_timeout = cfg["check_timeout"]
    ENG.algebra = cfg.get("algebra", False)
    ENG.narrow = cfg.get("narrow", False)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        hname, ci, case, stack, seed, want_sample, skip = msg
        stack = list(stack)
        t0 = time.time()
        for k in ENG.stats:
            ENG.stats[k] = 0.0 if k == "solver_time" else 0
        out = {"h": hname, "ci": ci, "viol": [], "odd": [], "paths": 0, "aborted": 0, "checks": 0, "inc": [],
               "reached": set(), "samples": [], "left": [], "depth": 0, "decisions": 0}
        ns = 0
        while stack:
            prefix = stack.pop()
            if prefix in skip:  # brought a worker down before
                continue
            conn.send(("path", prefix))
            res, p = explorer.run_path(hname, case, prefix)
            stack.extend(res["new"])
            out["decisions"] += max(0, len(res["trace"]) - len(prefix))
            if res["status"] == "abort":
                out["aborted"] += 1
            else:
                out["paths"] += 1
            out["depth"] = max(out["depth"], res["depth"])
            out["checks"] += res["checks"]
            out["reached"].update(res["reached"])
            for label, inputs in res["viol"]:
                out["viol"].append((label, inputs, res["choices"], prefix))
            out["inc"] += [(x, prefix) for x in res["inc"]]
            if res["status"] in ("unsupported", "exception"):
                out["odd"].append((res["status"], res["exc"], res["inputs"], res["choices"], prefix))
            if res["status"] == "ok" and ns < want_sample:
                s = explorer.sample(p)
                if s is not None:
                    out["samples"].append(s)
                    ns += 1
            if len(out["viol"]) + len(out["odd"]) >= 4 or time.time() - t0 > slice_s:
                break
        out["left"] = stack
        out["stats"] = dict(ENG.stats)
        conn.send(("done", out))


# ---------------------------------------------------------------------------
class Pool:
    def __init__(self, explorer, n, slice_s, cfg):
        self.ctx = mp.get_context("fork")
        self.explorer = explorer
        self.n = n
        self.slice_s = slice_s
        self.cfg = cfg
        self.w = {}

    def spawn(self):
        a, b = self.ctx.Pipe()
        pr = self.ctx.Process(target=worker, args=(b, self.explorer, self.slice_s, self.cfg), daemon=True)
        pr.start()
        b.close()
        self.w[a] = dict(p=pr, item=None, prefix=None, t=0.0)
        return a

    def kill(self, a):
        w = self.w.pop(a)
        w["p"].kill()
        w["p"].join()
        a.close()
        return w

    def run(self, items, on_done, on_crash, deadline, path_timeout):
        """items: list of (h, ci, case, stack, seed, want, prefixes to skip)"""
        queue = list(items)
        for _ in range(min(self.n, max(1, len(queue)) * 8)):
            self.spawn()
        while True:
            idle = [a for a, w in self.w.items() if w["item"] is None]
            for a in idle:
                if not queue:
                    break
                # spread a big stack over the idle workers
                h, ci, case, stack, seed, want, skip = queue.pop(0)
                if len(stack) > 1 and len(queue) < len(idle):
                    cut = max(1, len(stack) // 2)
                    queue.append((h, ci, case, stack[:cut], seed, 0, skip))
                    stack = stack[cut:]
                it = (h, ci, case, stack, seed, want, skip)
                self.w[a].update(item=it, prefix=None, t=time.time())
                a.send(it)
            busy = [a for a, w in self.w.items() if w["item"] is not None]
            if not busy and not queue:
                break
            if time.time() > deadline:
                return queue + [w["item"] for w in self.w.values() if w["item"]]
            for a in wait(busy, timeout=1.0):
                w = self.w[a]
                try:
                    kind, val = a.recv()
                except (EOFError, OSError):
                    w = self.kill(a)
                    if on_crash("crash", w["item"], w["prefix"]):
                        return []
                    it = w["item"]
                    if w["prefix"] is not None and len(it[6]) < 3:
                        queue.append((*it[:5], 0, it[6] + [w["prefix"]]))
                    self.spawn()
                    continue
                if kind == "path":
                    w["prefix"] = val
                    w["t"] = time.time()
                else:
                    it = w["item"]
                    w["item"] = None
                    stop = on_done(val)
                    if stop:
                        return []
                    if self.cfg.get("algebra"):
                        # nonlinear queries: the solver's luck must not depend on what the process did before
                        self.kill(a)
                        self.spawn()
                    if val["left"]:
                        queue.append((it[0], it[1], it[2], val["left"], it[4], 0, it[6]))
            now = time.time()
            for a in list(self.w):
                w = self.w[a]
                if w["item"] is not None and now - w["t"] > path_timeout:
                    w = self.kill(a)
                    if on_crash("timeout", w["item"], w["prefix"]):
                        return []
                    it = w["item"]
                    if w["prefix"] is not None and len(it[6]) < 3:
                        queue.append((*it[:5], 0, it[6] + [w["prefix"]]))
                    self.spawn()
        return []

    def close(self):
        for a in list(self.w):
            self.kill(a)


# ---------------------------------------------------------------------------
def native_replay(prop, jobs, timeout=120, seeds=None, stop_on_fail=True):
    """run a list of {h, case, inputs} on the native build in a subprocess;
    -> list of results {failed: [...], exc: str|None, skip: bool} (a missing
    result means that the process died there)"""
    d = tempfile.mkdtemp(prefix="vs_replay_")
    jf, of = os.path.join(d, "jobs.json"), os.path.join(d, "out.jsonl")
    try:
        with open(jf, "w") as f:
            json.dump({"prop": prop, "jobs": jobs, "seeds": seeds}, f)
        env = dict(os.environ, IRSPACK_NUM_THREADS_DEFAULT="2", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2")
        how = "exit"
        try:
            pr = subprocess.run([PY, "-m", "vs.replay", jf, of], cwd=str(VERIF), env=env, timeout=timeout,
                                capture_output=True, text=True)
            if pr.returncode:
                how = f"process died with status {pr.returncode}: {pr.stderr[-400:]}"
        except subprocess.TimeoutExpired:
            how = "timeout"
        res = []
        if os.path.exists(of):
            with open(of) as f:
                for line in f:
                    try:
                        res.append(json.loads(line))
                    except ValueError:
                        pass
        return res, how
    finally:
        subprocess.run(["rm", "-rf", d])
