"""python -m vs.replay JOBS.json OUT.jsonl : run harness cases concretely on
the natively compiled irspack.   python -m vs.replay FILE.json : re-run one
recorded counterexample and print what happens."""
import json
import sys
import traceback


def run_job(h, job, seeds, irspack):
    from .ctx import ConcreteCtx, Skip

    last = {"failed": [], "exc": None, "skip": False, "n": 0}
    for s in range(seeds):
        ctx = ConcreteCtx(job["inputs"], h.tol, seed=s, irspack=irspack)
        r = {"failed": [], "exc": None, "skip": False, "seed": s}
        try:
            h.fn(ctx, **job["case"])
        except Skip:
            r["skip"] = True
        except ImportError as e:
            # a name the harness imports is not there (moved or renamed): no verdict
            if "/vs/props/" in traceback.extract_tb(e.__traceback__)[-1].filename.replace("\\", "/"):
                r["skip"] = True
            else:
                r["exc"] = type(e).__name__ + ": " + str(e)[:300]
        except Exception as e:
            r["exc"] = type(e).__name__ + ": " + str(e)[:300]
            r["tb"] = traceback.format_exc(limit=-5)
        r["failed"] = ctx.failed
        r["n"] = ctx.nchecks
        last = r
        if r["failed"] or r["exc"]:
            return r
        if not ctx.used_rng and not job.get("repeat"):
            break
    return last


def main():
    import warnings

    warnings.simplefilter("ignore")
    from . import native, props

    if len(sys.argv) == 2:
        with open(sys.argv[1]) as f:
            rec = json.load(f)
        if rec.get("kind") == "schedule":
            from .check import replay_schedule

            sys.exit(replay_schedule(rec))
        jobs = {"prop": rec["property"], "jobs": [{"h": rec["harness"], "case": rec["case"], "inputs": rec["inputs"],
                                                   "repeat": rec.get("repeat", False)}], "seeds": rec.get("seeds")}
        out = None
    else:
        with open(sys.argv[1]) as f:
            jobs = json.load(f)
        out = open(sys.argv[2], "w")
    irspack = native.install()
    hs = props.harnesses(jobs["prop"])
    bad = 0
    for job in jobs["jobs"]:
        h = hs[job["h"]]
        r = run_job(h, job, jobs.get("seeds") or h.seeds, irspack)
        bad += bool(r["failed"] or r["exc"])
        if out is None:
            print(json.dumps(r, indent=1))
        else:
            out.write(json.dumps(r) + "\n")
            out.flush()
    if out is None:
        sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
