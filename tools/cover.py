"""cover.py: blocks of the reviewed program that the analysis finds unreachable (each must have a reason)"""
import sys,os,json,threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/onx')
sys.setrecursionlimit(200000); threading.stack_size(1<<30)
def main():
    import reg
    from models import Eng
    R=reg.Prog(reg.load_reference()); spec=reg.read_spec()
    S=reg.Side(R,set(spec))
    vis={}; Eng.visited=vis
    for u in spec: S.summary(u)
    n=0
    for u,b in R.bodies.items():
        if b.j.get("derive"): continue
        v=vis.get(u)
        if v is None: print("never", u, b.j["kind"]); continue
        # reachable blocks in cfg
        seen,st={0},[0]
        for k in b.cfg.rpo:
            if k in v: continue
            t=b.blocks[k]["t"]
            if t["k"] in ("unreachable","resume","abort"): continue
            # reported only if some predecessor was visited
            print("dead", u, k, t["k"], t.get("sp"), (t.get("fn") or {}).get("path") if isinstance(t.get("fn"),dict) else "")
            n+=1
    print(n); os._exit(0)
th=threading.Thread(target=main); th.start(); th.join()
