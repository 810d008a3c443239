"""runs every claimed check (4 at a time); prints status lines"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
def run(p):
    r = subprocess.run(["python3", "onx/check.py", p], cwd=H, capture_output=True, text=True)
    return p, r.returncode, r.stdout + r.stderr[-2000:]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for p, rc, out in ex.map(run, ids):
        if rc:
            bad += 1
            print("==", p, "rc", rc); print(out[-3000:])
        elif "-v" in os.environ.get("V", ""):
            print(out.strip())
print(len(ids), "checks,", bad, "not quiet")
