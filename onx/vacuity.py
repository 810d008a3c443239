"""P10 / P11: no check is vacuous.  A call that fixes some of its arguments (the type a header
must have, the class an object must declare) must leave the result open: a fallible function
must be able to succeed, and a yes/no question about the input must have both answers.  The
callee is analysed with exactly the constants of the call, looking into small functions."""
import os, sys
from terms import *
from models import Eng, is_err
from engine import Unsupported
import reg, terms

GIVEUP = (Unsupported, RecursionError, OverflowError, MemoryError)
OPEN = ("sym", "call", "out", "bits", "idx", "lpv", "lvb", "ite", "fn", "clo", "fld", "discr", "len", "raw")
LEVELS = ((160, 4), (450, 4), (1500, 1))
WORK = 100000


def ground(x):
    return x.op in ("int", "adt", "str") and not collect(x, lambda y: y.op in OPEN)


def calls(ctx, units):
    """{(callee, constant arguments): callers}"""
    out = {}
    for u in units:
        s = ctx.cmp.cur.summary(u)
        if s is None:
            continue
        for t in [s[0]] + [v for _, v in s[1]]:
            for c in collect(t, lambda x: x.op == "call" and x.a[0] in ctx.base):
                args = tuple(x if ground(x) else None for x in c.a[1:])
                if any(a is not None for a in args):
                    out.setdefault((c.a[0], args), set()).add(u)
    for u in units:
        out.setdefault((u, ()), set()).add(u)
    return out


def verdict(ctx, f, args):
    """why the result of f with these constants is settled, or None; number of analyses"""
    P, base = ctx.P, ctx.base
    if f not in P.bodies:
        return None, 0
    b = P.bodies[f]
    rt = b.lty(0)
    isres = rt.get("def") == "std::result::Result"
    isbool = P.types[rt["args"][0]]["s"] == "bool" if isres else rt["s"] == "bool"
    if not isres and not (isbool and args):
        return None, 0
    n = 0
    for Y in ctx.cmp.expansions(f, frozenset(), LEVELS):
        e = Eng(P, opaque_pred=lambda p: p in base and p not in Y and p != f)
        old = terms.limit(WORK)
        try:
            r, s = e.analyse(f, args=list(args) or None)
            n += 1
            if e.notes:
                return None, n
            r = e.settle(r, s)
            if isres and is_err(r) is TRUE:
                return "can never succeed", n
            if isbool and args:
                v = under(r, NOT(is_err(r))) if isres else r
                ls = set(l for l in leaves(v) if l is not BOT)
                if len(ls) == 1 and ground(list(ls)[0]):
                    return "always answers %s" % show(list(ls)[0])[:40], n
        except GIVEUP:
            return None, n
        finally:
            terms.work[1] = old
    return None, n


def not_vacuous(pid):
    def rule(ctx):
        import props, json
        index = json.load(open(os.path.join(reg.SPECDIR, "index.json")))
        units = [u for u in props.select(pid, {u: tuple(x) for u, x in index.items()}) if u in ctx.P.bodies]
        viol, n, m = [], 0, 0
        for (f, args), us in sorted(calls(ctx, units).items(), key=lambda x: str(x[0])[:300]):
            why, k = verdict(ctx, f, args)
            n += 1
            m += k
            if why:
                u = sorted(us)[0]
                viol.append((u, ctx.P.bodies[u].j["sp"], "%s(%s) %s" % (reg.short(f), ", ".join(
                    "_" if a is None else show(a)[:60] for a in args), why), []))
        return viol, {"calls": n, "analyses": m}, \
            "%d calls with constant arguments: none has a settled outcome" % n
    return rule
