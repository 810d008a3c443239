"""tryedit.py FILE [NAME...]: FILE defines TRIALS = [(name, [(file, old, new), ...]), ...]; each
is applied to a scratch copy of /repo and all claimed checks are run on it (trial.py)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
want = sys.argv[2:]


def run(t):
    name, edits = t[0], t[1]
    tmp = tempfile.mkdtemp(prefix="tryedit.", dir="/tmp")
    try:
        d = tmp + "/repo"
        shutil.copytree("/repo", d, ignore=lambda p, n: [x for x in n if x in (".git", "target", "samples", "snapshots")], symlinks=True)
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            if s.count(old) != 1:
                return name, "EDIT MATCHES %d TIMES: %s" % (s.count(old), old[:70])
            open(d + "/" + f, "w").write(s.replace(old, new))
        r = subprocess.run(["python3", H + "/tools/trial.py", d] + [x for x in g.get("PIDS", [])], capture_output=True, text=True, timeout=900)
        return name, (r.stdout + r.stderr[-800:]).replace(d, "").strip()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for name, out in ex.map(run, [t for t in g["TRIALS"] if not want or t[0] in want]):
        print("#### %s" % name)
        print(out, flush=True)
