import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import terms
from prog import Prog
from models import Eng

def load(f="/tmp/prog.json"):
    return Prog(json.load(open(f))["onenote_parser"])

if __name__ == "__main__":
    P = load()
    pats = sys.argv[1:]
    for k in P.bodies:
        if any(k == p or (p.startswith("~") and p[1:] in k) for p in pats):
            if P.bodies[k].j.get("kind") == "Closure": continue
            e = Eng(P, opaque_pred=lambda p: p in P.bodies and P.bodies[p].j.get('kind')!='Closure' and not P.bodies[p].j.get('derive'))
            r, s = e.analyse(k)
            print("==", k)
            print(pretty(r) if "pretty" in globals() else show(r, lim=30))
            for c, v in s.env.items():
                if c[0] == "H" and str(c[1]).startswith("p"):
                    v = under(v, NOT(is_err(r))) if P.bodies[k].lty(0).get("def") == "std::result::Result" else v
                    print("  state", c[1], ":", pretty(v))
            print("notes", e.notes)
