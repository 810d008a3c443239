"""trybugs.py [ID...]: applies each planted bug to /repo, runs the check of its property (and,
with -a, every claimed check), and undoes it."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
allc = "-a" in sys.argv
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
claimed = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
for b in ids:
    d = os.path.join(HERE, "seeded", b)
    pid = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        res = []
        ps = claimed if allc else [pid]
        procs = [(p, subprocess.Popen(["python3", "onx/check.py", p], cwd=HERE, stdout=subprocess.PIPE, text=True)) for p in ps[:1]]
        outs = [(p, q.communicate()[0], q.returncode) for p, q in procs]
        for i in range(1, len(ps), 7):
            procs = [(p, subprocess.Popen(["python3", "onx/check.py", p], cwd=HERE, stdout=subprocess.PIPE, text=True)) for p in ps[i:i + 7]]
            outs += [(p, q.communicate()[0], q.returncode) for p, q in procs]
        for p, o, rc in outs:
            if rc != 0:
                res.append(p)
        first = [o for p, o, rc in outs if p == pid and rc != 0]
        print("%-32s %-4s %s %s" % (b, pid, "CAUGHT" if pid in res else "MISSED", " ".join(res) if allc else ""), flush=True)
        if first:
            print("      " + first[0].splitlines()[0][:200])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
