"""trial.py DIR [PROPERTY...]: every claimed check on the tree in DIR, in one process (shared
analyses).  Prints the properties that raise and the first reason of each.  For development:
the registered checks are onx/check.py on /repo."""
import json, os, sys, threading, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/onx")
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)


def trial(d, ids=None, verbose=False):
    import canon, extract, reg, props, rules
    from prog import Prog
    ids = ids or [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
    try:
        dump = extract.extract(d)
    except extract.ExtractError as ex:
        return {"build": [str(ex)[-300:]]}
    dump["onenote_parser"] = canon.align(dump["onenote_parser"], reg.load_reference())
    P = Prog(dump["onenote_parser"])
    spec = reg.read_spec()
    ctx = rules.Ctx(P, dump, "quick", set(spec))
    ctx.cmp = reg.Comparison(P, spec)
    index = {u: tuple(x) for u, x in json.load(open(H + "/spec/index.json")).items()}
    out = {}
    for pid in ids:
        v = []
        if props.SPEC.get(pid):
            v += ctx.cmp.check(props.select(pid, index))
            v += rules.value_traits(ctx, [f for f, _ in props.SPEC[pid]])[0]
        for name in rules.RULES.get(pid, []):
            v += getattr(rules, name)(ctx)[0]
        if v:
            out[pid] = ["%s: %s" % (x[0].replace("crate::", ""), x[2]) + ("".join("\n      " + str(y)[:300] for y in x[3][:6]) if verbose else "")
                        for x in v]
    return out


if __name__ == "__main__":
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))

    def main():
        t = time.time()
        r = trial(sys.argv[1], sys.argv[2:], "-v" in os.environ.get("V", ""))
        for p, v in r.items():
            print(p)
            for x in v[:4]:
                print("   ", x[:1500 if "V" in os.environ else 220])
        print("%s: %s (%.0fs)" % (sys.argv[1], " ".join(r) or "quiet", time.time() - t), flush=True)
        os._exit(0)
    th = threading.Thread(target=main)
    th.start()
    th.join()
