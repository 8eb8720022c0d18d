"""python -m vs.gen : regenerate properties.jsonl and MANIFEST.json from vs/meta.py."""
import json
from pathlib import Path

from .meta import META, NA

V = Path(__file__).resolve().parent.parent


def main():
    lines, checks, na = [], [], []
    for m in sorted(META, key=lambda m: m["id"]):
        f = V / "vs" / "props" / f"{m['id'].lower()}.py"
        rec = dict(id=m["id"], title=m["title"], statement=m["statement"],
                   quantifier=dict(over=m["over"], text=m["quant"]), why_tests_cant=m["why"],
                   anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]],
                                observe_at=m["observe"], hook_needed=None))
        assert len(m["title"]) <= 80, m["id"]
        lines.append(json.dumps(rec))
        if m["id"] in NA:
            na.append(dict(property=m["id"], reason=NA[m["id"]]))
            continue
        assert f.exists(), m["id"]
        checks.append(dict(
            property=m["id"],
            quick_cmd=f"/opt/venv/bin/python -m vs.check {m['id']} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python -m vs.check {m['id']} --tier thorough",
            evidence_file=f"evidence/{m['id']}.json",
            technique=m.get("technique", "symbolic execution of the real Python/C++ code, assertions discharged by z3 on every path within bounds; counterexamples replayed natively"),
            level="model_checking",
            level_note=m["note"] + " Values are exact reals (no float rounding); numpy/scipy.sparse are facades over exact terms; violations are reported only after a native replay of the solver's counterexample fails on the real build."))
    (V / "properties.jsonl").write_text("\n".join(lines) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -m vs.build native sym", checks=checks, not_applicable=na,
               notes="All checks need only /opt/venv/bin/python, g++, the system Eigen headers and z3 from /opt/veriftools/pyvenv. No hooks in /repo.")
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
