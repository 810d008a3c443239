"""check.py PROPERTY  -- decide one property on /repo's current tree."""
import json, os, sys, time, traceback
T0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(pid):
    import canon, extract, reg, props, rules
    from prog import Prog
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    viol, known, cov = [], [], {}
    expl = []
    try:
        dump = extract.extract()
    except extract.ExtractError as ex:
        # a tree that does not build is not judged: say so and stay fail-closed
        viol.append(("build", "src", "the crate could not be analysed: " + str(ex)[-1500:], []))
        dump = None
    if dump is not None:
        dump["onenote_parser"] = canon.align(dump["onenote_parser"], reg.load_reference())
        P = Prog(dump["onenote_parser"])
        spec = reg.read_spec()
        ctx = rules.Ctx(P, dump, tier, set(spec))
        cmp_ = reg.Comparison(P, spec)
        ctx.cmp = cmp_
        index = json.load(open(os.path.join(VERIF, "spec", "index.json")))
        sel = props.select(pid, {u: tuple(x) for u, x in index.items()})
        if pid in props.SPEC and props.SPEC[pid]:
            if len(sel) < 2 or any(u not in spec for u in sel):
                viol.append(("spec", "spec", "specification of %s is incomplete" % pid, []))
            for r in cmp_.check(sel):
                viol.append(r)
            v, n = rules.value_traits(ctx, [f for f, _ in props.SPEC[pid]])
            viol += v
            cov["clone_and_comparison_impls"] = n
            cov["units_compared"] = len(sel)
            cov["units"] = [u.replace("crate::", "") for u in sel]
            cov["absolved_after_expansion"] = {k: v for k, v in cmp_.absolved.items()}
            expl.append("%d functions: canonical gated value (result and final state) of the current compiler IR "
                        "compared with the reviewed specification under spec/units" % len(sel))
        for name in rules.RULES.get(pid, []):
            v, c, e = getattr(rules, name)(ctx)
            viol += v
            cov[name] = c
            expl.append(e)
        cov["functions_in_program"] = len(P.bodies)
    kf = rules.known_findings()
    out = []
    for (site, where, why, det) in viol:
        hit = [k for k in kf if k["property"] == pid and k["site"] == site and (not k.get("why") or k["why"] in why)]
        if hit:
            known.append((site, hit[0]["what"]))
        else:
            out.append((site, where, why, det))
    cov["explanation"] = "; ".join(expl) or "nothing analysed"
    cov["known_findings"] = [k[0] for k in known]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
          "coverage": cov, "wall_s": round(time.time() - T0, 2),
          "assumptions": rules.ASSUMPTIONS,
          "violations": len(out),
          "violation_list": [{"site": s, "where": w, "why": y, "detail": d} for s, w, y, d in out]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for s, what in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, s.replace("crate::", ""), what))
    if out:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for s, w, y, d in out:
                f.write("%s  [%s]\n  %s\n" % (s, w, y))
                for l in d:
                    f.write("    %s\n" % (l,))
        for s, w, y, d in out[:12]:
            print("  %s [%s]: %s" % (s.replace("crate::", ""), w, y))
            for l in d[:8]:
                print("      " + str(l)[:300])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s (%.1fs)" % (pid, cov["explanation"][:300], time.time() - T0))
    return 0


if __name__ == "__main__":
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    rc = [1]

    def run():
        try:
            rc[0] = main(sys.argv[1])
        except BaseException:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (sys.argv[1], "analysis-error"))
            rc[0] = 1
    th = threading.Thread(target=run)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
