"""P30: when a function fails, the error it returns is the one that describes what failed.

The reviewed tree says which category each failing step is reported under.  For every function
the error value is compared, on the paths on which both the current and the reviewed function
fail; which paths fail at all is decided elsewhere (P05-P11).  If two steps both fail, either
may be reported."""
import re, time
from terms import *
from equiv import equal
import reg

# a conversion is chosen by the type of what it converts, whether written out or made by `?`
FROM = re.compile(r"^<errors::(Error|ErrorKind) as std::convert::From<.*>>::from$")
ERRTYPES = ("crate::errors::Error", "crate::errors::ErrorKind", "errors::Error", "errors::ErrorKind")


def norm(v):
    """error value with the wrapping of kinds in Error dropped"""
    def f(x):
        if x.op == "call" and FROM.match(str(x.a[0]).replace("crate::", "")) and len(x.a) == 2:
            return norm(x.a[1])
        if x.op == "adt" and str(x.a[0]).endswith("errors::Error") and len(x.a[3]) == 1:
            return norm(x.a[3][0])
        if x.op == "lpv":
            return raw("lpv", x.a[0], x.a[1], norm(x.a[2]))
        return x
    return lift(f, v)


def kind(x):
    """the category of an error value"""
    if x.op == "adt":
        return ("category", x.a[2])
    if x.op == "fld" and x.a[0].op == "call":
        return ("of", x.a[0].a[0])
    if x.op == "call":
        return ("conversion", x.a[0], tuple(kind(y) for y in x.a[1:] if isinstance(y, T)))
    if x.op == "lpv":
        ks = sorted(set(kind(y) for y in leaves(x.a[2]) if y is not BOT), key=str)
        return ks[0] if len(ks) == 1 else ("any", tuple(ks))
    return ("value", x)


def flat(k):
    if k[0] == "any":
        return set(y for x in k[1] for y in flat(x))
    return {k}


def err_leaves(e, cond):
    """(last test on the way, error value) of each error; the test is None for an error that
    a loop ends with, unless the test was made in it"""
    out, seen = [], set()

    def go(v, last):
        if (v, last) in seen:
            return
        seen.add((v, last))
        if v.op == "ite":
            go(v.a[1], (v.a[0], True))
            go(v.a[2], (v.a[0], False))
        elif v.op == "lpv":
            go(v.a[2], None)
        elif v is not BOT:
            out.append((last, v))
    go(ite(cond, e, BOT), None)
    return out


class Categories(object):
    def __init__(self, cmp):
        self.cmp = cmp
        self.memo = {}
        self.nleaf = 0

    def kindof(self, u):
        """how the function reports errors: result, error value, not at all"""
        for side in (self.cmp.cur, self.cmp.ref):
            b = side.P.bodies.get(u)
            if b is None:
                return None
        t = self.cmp.ref.P.bodies[u].lty(0)
        if t.get("def") == "std::result::Result":
            return "res"
        if any(x in t["s"] for x in ERRTYPES):
            return "err"
        return None

    def errors(self, side, u, X=frozenset()):
        s = side.summary(u, X, collapse=False)
        if s is None:
            return None
        r = s[0]
        if self.kindof(u) == "err":
            return TRUE, norm(r)
        c = is_err(r)
        return c, norm(under(err_val(r), c)) if c is not FALSE else BOT

    def same(self, u, X=frozenset()):
        """-> list of differing (literal, current kind, reviewed kind), or None if not analysable"""
        a, b = self.errors(self.cmp.cur, u, X), self.errors(self.cmp.ref, u, X)
        if a is None or b is None:
            return None
        both = AND(a[0], b[0])
        if both is FALSE:
            return []
        ea, eb = under(a[1], both), under(b[1], both)
        self.nleaf += len([l for l in leaves(ea) if l is not BOT])
        if ea is eb or equal(ea, eb):
            return []
        la, lb = err_leaves(a[1], a[0]), err_leaves(b[1], b[0])
        by = {}
        for last, l in lb:
            by.setdefault(last, set()).update(flat(kind(l)))
        allb = self.closure(self.cmp.ref, u, lb)
        out = []
        for last, l in la:
            ks = flat(kind(l))
            # the step whose failure is reported: the last test on the way
            if last is not None and last in by:
                if not ks <= by[last] and not ks <= self.there(a, b, last, l):
                    out.append((last, ks - by[last], by[last]))
                continue
            # the function tests something else now: the category must be one it reported before
            if ks <= allb or all(k in allb or self.expand(self.cmp.cur, k) <= allb for k in ks):
                continue
            out.append((last, ks - allb, allb))
        return out

    def there(self, a, b, last, l):
        """kinds of error the reviewed function reports where the current one reports l after last:
        the order of the tests in a gate need not be the order in which the steps are taken"""
        memo = {}

        def reach(v, at):
            if v.op != "ite":
                return TRUE if v is l and at == last else FALSE
            if (v, at) not in memo:
                memo[(v, at)] = ite(v.a[0], reach(v.a[1], (v.a[0], True)), reach(v.a[2], (v.a[0], False)))
            return memo[(v, at)]
        r = reach(ite(a[0], a[1], BOT), None)
        out = set()
        for _, x in err_leaves(b[1], AND(b[0], r)):
            out |= flat(kind(x))
        return out

    def expand(self, side, k, seen=None):
        """categories an error of function k stands for"""
        seen = set() if seen is None else seen
        out = {k}
        if k[0] != "of" or k in seen or k[1] not in side.P.bodies or k[1] not in side.base:
            return out
        seen.add(k)
        e = self.errors(side, k[1])
        if e is not None:
            for _, l in err_leaves(e[1], e[0]):
                for y in flat(kind(l)):
                    out |= self.expand(side, y, seen)
        return out

    def closure(self, side, u, ls):
        out = set()
        for _, l in ls:
            for k in flat(kind(l)):
                out |= self.expand(side, k)
        return out


def categories(ctx):
    from rules import here
    cmp, P = ctx.cmp, ctx.P
    C = Categories(cmp)
    viol, units, skipped = [], 0, 0
    changed = [u for u in sorted(cmp.base) if not cmp.matches(u)]
    X = cmp.movable(u for u in changed if not cmp.exported(u))
    for u in sorted(cmp.base):
        if C.kindof(u) is None:
            if u not in P.bodies:
                skipped += 1
            continue
        units += 1
        r = C.same(u)
        if r is None:
            viol.append((u, here(P, u), "cannot be analysed: %s" % cmp.cur.fail.get(u, cmp.ref.fail.get(u)), []))
            continue
        if not r:
            continue
        # a step may have moved to another function
        if X and time.time() - cmp.t0 < reg.EXPAND_SECONDS:
            if any(C.same(u, Y) == [] for Y in cmp.expansions(u, frozenset(X))):
                continue
            roots = (cmp.cur.unit_callers(u, X) | cmp.ref.unit_callers(u, X)) if u in X else set()
            if roots and all(C.kindof(q) is None or any(C.same(q, Y) == [] for Y in cmp.expansions(q, frozenset(X))) for q in roots):
                continue
        lit, got, want = r[0]
        viol.append((u, here(P, u), "failing step reported as %s instead of %s" % (names(got), names(want)), [show(lit[0])[:300]] if lit else []))
    cov = {"functions_compared": units, "functions_gone": skipped, "error_values": C.nleaf}
    return viol, cov, ("%d functions that report errors: on every path on which one fails, its error value (category constructed, or lower-layer "
                       "error passed on) is the reviewed one; %d error values" % (units, C.nleaf))


def names(ks):
    out = []
    for k in sorted(ks, key=str)[:4]:
        if k[0] == "category":
            out.append(k[1])
        elif k[0] == "of":
            out.append("the error of " + str(k[1]).replace("crate::", ""))
        elif k[0] == "conversion":
            out.append("a conversion by " + str(k[1]).replace("crate::", ""))
        else:
            out.append(str(k[0]))
    return " / ".join(out) or "nothing"
