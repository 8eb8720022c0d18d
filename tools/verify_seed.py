"""verify_seed.py ID [--nocheck] : demo passes clean, fails patched, tests still pass, what the check says."""
import json, subprocess, sys, time
sid = sys.argv[1]
D, R = f"/verif/seeded/{sid}", "/repo"
prop = json.load(open(f"{D}/meta.json"))["property"]
def sh(*c, cwd=R):
    p = subprocess.run(c, cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
assert not sh("git", "status", "--porcelain")[1]
rc, out = sh("bash", f"{D}/demo.sh")
print("demo clean:", rc, out[-600:] if rc else "")
ok = rc == 0
try:
    rc, out = sh("git", "apply", f"{D}/patch.diff")
    assert rc == 0, out
    rc, out = sh("bash", "/opt/vp/build.sh"); print("build:", rc, out[-300:] if rc else ""); ok &= rc == 0
    rc, out = sh("bash", "/opt/vp/test.sh", "/tmp/vs_out.json")
    res = json.load(open("/tmp/vs_out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    print("tests:", out.strip().splitlines()[-1] if out.strip() else rc)
    rc, out = sh("bash", f"{D}/demo.sh"); print("demo patched:", rc, out[-300:]); ok &= rc != 0
    if "--nocheck" not in sys.argv:
        t = time.time()
        rc, out = sh("/opt/venv/bin/python", "-m", "vs.check", prop, cwd="/verif")
        lines = [l[:300] for l in out.splitlines()]
        print(f"CHECK {prop} on {sid}: rc={rc} {'CAUGHT' if rc == 1 else 'MISSED'} ({time.time()-t:.0f}s)"); print("\n".join(lines[-4:]))
finally:
    sh("git", "checkout", "--", ".")
print("OK" if ok else "BAD SEED")
sys.exit(0 if ok else 1)
