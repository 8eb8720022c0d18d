"""python -m vs.check <property> [--tier quick|thorough] : decide one property."""
import argparse
import json
import os
import re
import subprocess
import sys
import time
from pathlib import Path as FPath

VERIF = FPath(__file__).resolve().parent.parent


def log(*a):
    print(*a, flush=True)


class Result:
    def __init__(self):
        self.paths = self.aborted = self.decisions = self.checks = 0
        self.q = dict(branch_queries=0, check_queries=0, solver_time=0.0, unknown_branches=0, tolerance_discharged=0)
        self.depth = 0
        self.reached = {}
        self.inc = []
        self.samples = []
        self.cases = {}
        self.known = {}
        self.validated = 0
        self.notes = []
        self.times = {}


def load_known(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text()).get("findings", []) if e["property"] == pid]


def match_known(known, h, case, text):
    for e in known:
        if e.get("harness") and e["harness"] != h:
            continue
        if e.get("case") and any(case.get(k) != v for k, v in e["case"].items()):
            continue
        if e.get("label") and not re.search(e["label"], text):
            continue
        return e
    return None


def evidence(pid, tier, mod, res, wall, violations, hs):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cov = {
        "states": res.paths,
        "transitions": res.decisions,
        "traces_validated_against_impl": res.validated,
        "samples": res.samples[:5] or [{"note": "no path finished"}],
        "functions_encoded": mod.FUNCTIONS,
        "bounds": mod.BOUNDS,
        "harnesses": {h.name: {"cases": [c for c in h.cases(tier)][:40], "n_cases": len(h.cases(tier)), "note": h.note,
                               "paths": res.cases.get(h.name, 0)} for h in hs},
        "infeasible_paths": res.aborted,
        "assertions": res.checks,
        "solver_queries": {"branch": res.q["branch_queries"], "property": res.q["check_queries"]},
        "solver_time_s": round(res.q["solver_time"], 2),
        "unknown_branch_answers": res.q["unknown_branches"],
        "discharged_within_tolerance": res.q["tolerance_discharged"],
        "deepest_path": res.depth,
        "reachability_witnesses": {k: sorted(v) for k, v in res.reached.items()},
        "inconclusive": res.inc[:20],
        "n_inconclusive": len(res.inc),
        "exhaustive": not res.inc,
        "notes": res.notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS, "wall_s": round(wall, 2),
          "violations": violations}
    (d / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))


COMMON_ASSUMPTIONS = [
    "floating point values are modelled as exact reals (plus infinities / nan); rounding, overflow and the float32/float64 distinction are outside the encoding",
    "numpy / scipy.sparse container semantics are provided by facades (vs/npshim.py, vs/spshim.py) that compute with exact terms; pandas, optuna, pydantic are the real libraries",
    "the C++ extension sources are compiled from /repo with the scalar type replaced by a symbolic one and the system Eigen 3.4 headers",
]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    pid, tier = a.prop.upper(), a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from . import props

    mod = props.module(pid)
    hs = [h for h in mod.HARNESSES if not a.only
          or any(re.search(a.only, f"{h.name}#{ci}$") for ci in range(len(h.cases(tier))))]
    res = Result()
    ncpu = a.jobs or min(8, os.cpu_count() or 1)
    nat = subprocess.Popen([sys.executable, "-m", "vs.build", "native"], cwd=str(VERIF), stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True)
    from . import build, symload
    from .rngshim import NondetRandomState

    budget = a.deadline or (430 if tier == "quick" else 3000)
    try:
        irspack = symload.load(mod.MODULES)
    except build.BuildError as e:
        log(f"INCONCLUSIVE property={pid} symbolic build failed: {str(e)[:1500]}")
        res.inc.append("symbolic build failed: " + str(e)[:500])
        _, err = nat.communicate()
        evidence(pid, tier, mod, res, time.time() - t0, 0, hs)
        return 0
    from . import runner

    hmap = {h.name: h for h in hs}
    ex = runner.Explorer(irspack, hmap, symload.RESETS, NondetRandomState)
    cfg = dict(branch_timeout=getattr(mod, "BRANCH_TIMEOUT", 10000), check_timeout=getattr(mod, "CHECK_TIMEOUT", 30000),
               algebra=getattr(mod, "ALGEBRA", False),
               narrow=getattr(mod, "NARROW", False))
    pool = runner.Pool(ex, ncpu, 6.0, cfg)
    if a.v:
        log(f"loaded in {time.time() - t0:.1f}s")
    known = load_known(pid)
    state = {"violation": None, "tries": {}}

    def wait_native():
        _, err = nat.communicate() if nat.poll() is None else (None, "")
        return nat.returncode == 0

    def uneven(inputs):
        """neighbouring values without a short binary expansion (a narrowing of values shows only on those)"""
        from fractions import Fraction

        out = {}
        for k, v in inputs.items():
            f = Fraction(v)
            out[k] = str(f * Fraction(3000, 3001) if f.denominator != 1 else f * Fraction(3002, 3001) if abs(f) > 1 else f)
        return out

    def confirm(h, case, label, inputs_list, choices, prefix, kind):
        """replay on the real code; True when a violation was reported"""
        key = (h, re.sub(r"[\d.]+", "#", label)[:80], kind)
        n = state["tries"].get(key, 0)
        if n >= 5:
            res.inc.append(f"{h} {case}: {label} (not replayed: earlier candidates of the same kind did not reproduce)")
            return False
        state["tries"][key] = n + 1
        wait_native()
        sched = any(c[0] == "sched" for c in choices)
        if kind == "viol" and cfg["narrow"]:
            inputs_list = inputs_list[:3] + [uneven(i) for i in inputs_list[:3]]
        jobs = [{"h": h, "case": case, "inputs": i, "repeat": sched} for i in inputs_list[:6 if kind == "viol" else 8]]
        results, how = runner.native_replay(pid, jobs, timeout=150)
        for k, job in enumerate(jobs):
            r = results[k] if k < len(results) else None
            if r is None:
                if how == "exit":
                    break
                r = {"failed": [], "exc": how}
            if r["failed"] or r["exc"]:
                text = "; ".join(r["failed"][:4]) or r["exc"]
                e = match_known(known, h, case, text)
                if e:
                    if e["id"] not in res.known:
                        res.known[e["id"]] = e
                        log(f"KNOWN-FINDING: property={pid} {e['what']}")
                    return False
                rec = {"property": pid, "kind": "native", "harness": h, "case": case, "inputs": job["inputs"],
                       "repeat": sched, "solver_label": label, "native": r, "choices": choices}
                return report(rec, text)
        # schedule-dependent: re-execute the compiled C++ under the recorded schedule
        if sched and kind == "viol":
            for inp in inputs_list[:2]:
                rec = {"property": pid, "kind": "schedule", "harness": h, "case": case, "inputs": inp,
                       "choices": [c for c in choices if c[0] not in inp], "solver_label": label,
                       "modules": mod.MODULES}
                ok = run_schedule(ex, rec)
                if ok:
                    return report(rec, label + " (schedule-dependent)")
        res.inc.append(f"{h} {case}: {kind} {label[:300]} did not reproduce on the native build")
        if a.v:
            log("NOT REPRODUCED", h, case, label[:2500], json.dumps(inputs_list[:1])[:600], how)
        return False

    def report(rec, text):
        d = VERIF / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        f = d / f"{pid}_{rec['harness']}_{int(time.time())}.json"
        f.write_text(json.dumps(rec, indent=1, default=str))
        log(f"{rec['harness']} {json.dumps(rec['case'])}: {text[:600]}")
        log("inputs: " + json.dumps(rec["inputs"])[:800])
        log(f"VIOLATION property={pid} replay={f}")
        state["violation"] = str(f)
        return True

    def on_done(o):
        res.paths += o["paths"]
        res.aborted += o["aborted"]
        res.decisions += o["decisions"]
        res.checks += o["checks"]
        res.depth = max(res.depth, o["depth"])
        res.cases[o["h"]] = res.cases.get(o["h"], 0) + o["paths"]
        for k in res.q:
            res.q[k] += o["stats"].get(k, 0)
        key = f"{o['h']}#{o['ci']}"
        n, t = res.times.get(key, (0, 0.0))
        res.times[key] = (n + o["paths"], t + o["stats"].get("solver_time", 0))
        res.reached.setdefault(o["h"], set()).update(o["reached"])
        case = hmap[o["h"]].cases(tier)[o["ci"]]
        for s in o["samples"]:
            res.samples.append({"h": o["h"], "case": case, "inputs": s})
        for lab, pre in o["inc"]:
            res.inc.append(f"{o['h']} {case}: solver gave no answer for {lab}")
            if a.v:
                log("SOLVER UNKNOWN", o["h"], case, lab, pre)
        for lab, inputs, choices, pre in o["viol"]:
            if confirm(o["h"], case, lab, inputs, choices, pre, "viol"):
                return True
        for st, exc, inputs, choices, pre in o["odd"]:
            if a.v:
                log(st, o["h"], case, exc, pre)
            if confirm(o["h"], case, exc, inputs, choices, pre, st):
                return True
        return False

    def on_crash(why, item, prefix):
        h, ci, case = item[0], item[1], item[2]
        log(f"note: worker {why} in {h} {case} prefix {prefix}")
        inputs = careful_inputs(ex, h, case, prefix or [])
        if confirm(h, case, f"{why} during symbolic execution", [inputs], [], prefix, why):
            return True
        res.inc.append(f"{h} {case}: {why} during symbolic execution (prefix {prefix})")
        return False

    items = [(h.name, ci, c, [[]], 0, 2, []) for h in hs for ci, c in enumerate(h.cases(tier))
             if not a.only or re.search(a.only, f"{h.name}#{ci}$")]
    deadline = t0 + budget
    try:
        left = pool.run(items, on_done, on_crash, deadline, path_timeout=getattr(mod, "PATH_TIMEOUT", 150))
    finally:
        pool.close()
    if left:
        res.inc.append(f"time budget of {budget:.0f}s exhausted with {sum(len(i[3]) for i in left)} unexplored prefixes in "
                       + ", ".join(sorted({f'{i[0]}#{i[1]}' for i in left})))
    def robust(job):
        """the solver proved this path, the native run of its model failed: does it still fail next to the model?"""
        from fractions import Fraction

        alt = []
        for eps in (Fraction(1, 3001), Fraction(-1, 2003)):
            inp = {}
            for k, v in job["inputs"].items():
                f = Fraction(v)
                inp[k] = v if f.denominator == 1 and abs(f) < 1 else str(f * (1 + eps))
            alt.append({**job, "inputs": inp})
        # integer-valued inputs may be indices: keep them when the perturbed run is rejected
        rs, _ = runner.native_replay(pid, alt + [{**job, "inputs": {
            k: (v if Fraction(v).denominator == 1 else str(Fraction(v) * Fraction(3001, 3000))) for k, v in job["inputs"].items()}}],
            timeout=100, seeds=3)
        rs = [r for r in rs if not r["skip"]]
        return bool(rs) and all(r["failed"] or r["exc"] for r in rs)

    if state["violation"] is None and res.samples:
        ok = wait_native()
        if ok:
            step = max(1, len(res.samples) // 60)
            jobs = res.samples[::step][:80]
            results, how = runner.native_replay(pid, jobs, timeout=240, seeds=3)
            for job, r in zip(jobs, results):
                if r["failed"] or r["exc"]:
                    text = "; ".join(r["failed"][:4]) or r["exc"]
                    e = match_known(known, job["h"], job["case"], text)
                    if e:
                        if e["id"] not in res.known:
                            res.known[e["id"]] = e
                            log(f"KNOWN-FINDING: property={pid} {e['what']}")
                        continue
                    if not robust(job):
                        res.notes.append(f"{job['h']} {job['case']}: {text[:200]} only at a rounding boundary of {job['inputs']}")
                        continue
                    rec = {"property": pid, "kind": "native", "harness": job["h"], "case": job["case"],
                           "inputs": job["inputs"], "solver_label": "path model validated against the native build",
                           "native": r}
                    report(rec, text)
                    break
                elif r["skip"]:
                    pass
                else:
                    res.validated += 1
            if len(results) < len(jobs) and state["violation"] is None:
                job = jobs[len(results)]
                r2, how2 = runner.native_replay(pid, [job], timeout=100, seeds=1)
                if not r2:
                    report({"property": pid, "kind": "native", "harness": job["h"], "case": job["case"],
                            "inputs": job["inputs"], "solver_label": "native run died", "native": {"exc": how2}}, how2)
        else:
            res.notes.append("native build failed; no trace validation")
    vac = [h.name for h in hs if res.cases.get(h.name, 0) == 0]
    if vac and state["violation"] is None and not left:
        res.inc.append("no feasible path in " + ", ".join(vac))
    if nat.poll() is None:
        nat.kill()
    wall = time.time() - t0
    evidence(pid, tier, mod, res, wall, 1 if state["violation"] else 0, hs)
    log(f"{pid} {tier}: {res.paths} paths, {res.checks} assertions, {res.q['branch_queries'] + res.q['check_queries']} queries, "
        f"{res.q['solver_time']:.1f}s solver, {res.validated} traces validated, {len(res.inc)} inconclusive, {wall:.1f}s")
    if a.v:
        for k, (n, t) in sorted(res.times.items(), key=lambda x: -x[1][1])[:12]:
            log(f"  {k}: {n} paths, {t:.1f}s solver")
    for i in res.inc[:8]:
        log("INCONCLUSIVE:", i[:400])
    return 1 if state["violation"] else 0


def careful_inputs(ex, h, case, prefix):
    """re-run a crashing path in a child that saves a model after each step"""
    import multiprocessing as mp
    import tempfile

    from . import runner

    fd, name = tempfile.mkstemp(prefix="vs_careful_")
    os.close(fd)

    def job():
        def save(p):
            r, m = runner._solve(p, [], 3000)
            if r == runner.z3.sat:
                with open(name, "w") as f:
                    json.dump(runner._model_inputs(p, m), f)

        ex.run_path(h, case, prefix, careful=save)

    pr = mp.get_context("fork").Process(target=job, daemon=True)
    pr.start()
    pr.join(40)
    if pr.is_alive():
        pr.kill()
        pr.join()
    try:
        with open(name) as f:
            return json.load(f)
    except ValueError:
        return {}
    finally:
        os.unlink(name)


def run_schedule(ex, rec):
    """pinned inputs: fails under the recorded schedule, holds under the default one"""
    import multiprocessing as mp

    def one(choices, q):
        pin = {k: v for k, v in rec["inputs"].items()}
        r, p = ex.run_path(rec["harness"], rec["case"], [], pin=pin, choices=choices)
        q.put(bool(r["viol"]) if r["status"] == "ok" else None)

    out = []
    for ch in ([c[1] for c in rec["choices"]], []):
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        pr = ctx.Process(target=one, args=(ch, q), daemon=True)
        pr.start()
        try:
            out.append(q.get(timeout=60))
        except Exception:
            out.append(None)
        pr.kill()
        pr.join()
    return out == [True, False]


def replay_schedule(rec):
    from . import runner, symload
    from .props import harnesses
    from .rngshim import NondetRandomState

    irs = symload.load(rec["modules"])
    ex = runner.Explorer(irs, harnesses(rec["property"]), symload.RESETS, NondetRandomState)
    bad = run_schedule(ex, rec)
    print("violation reproduced under the recorded schedule" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
