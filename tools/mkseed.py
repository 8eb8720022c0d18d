"""mkseed.py ID PROP [--nokit] : reads from stdin a python file defining EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO;
writes /verif/seeded/ID and verifies it against /repo (restoring the tree)."""
import json, os, shutil, subprocess, sys
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
D = f"/verif/seeded/{sid}"
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
try:
    for f, a, b in ns["EDITS"]:
        p = f"{R}/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(f"{D}/patch.diff", "w").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout)
finally:
    subprocess.run(["git", "-C", R, "checkout", "--", "."])
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{D}/meta.json", "w"), indent=1)
kit = "kit.install" in ns["DEMO"]
if kit:
    shutil.copytree("/verif/tools/kit/nanobind", f"{D}/nanobind")
    shutil.copy("/verif/tools/kit/kit.py", D)
open(f"{D}/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(f"{D}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(f"{D}/demo.sh", 0o755)
sys.exit(subprocess.run([sys.executable, "/verif/tools/verify_seed.py", sid] + sys.argv[3:]).returncode)
