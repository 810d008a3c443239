"""P02: every loop has a measure.

A loop is a natural loop of a MIR body or a library call that drives an iterator.  Accepted
measures, each checked on the gated values of the loop's carried cells:
  finite    the loop advances one iterator over a collection in memory, a directory or a range
  consumes  every back edge leaves a reader (or slice) it carries strictly shorter
  counts    a carried integer strictly grows below a bound that the loop does not change, or
            strictly decreases towards zero
  visits    every back edge adds a new element to a carried set
"""
from terms import *
from arith import WID, UMAX

INFINITE = ("std::iter::Repeat", "std::iter::RepeatWith", "std::iter::Cycle", "std::iter::Successors", "std::iter::FromFn",
            "std::ops::RangeFrom", "std::iter::Scan", "itertools::Unfold", "itertools::Iterate")
BOUNDING = ("std::iter::Take", "std::iter::Zip")


def infinite_type(P, tid, seen=None, top=True):
    """does the iterator type advance without a bound of its own?"""
    seen = seen if seen is not None else set()
    if tid in seen:
        return None
    seen.add(tid)
    t = P.types[tid]
    d = t.get("def", "")
    if d in INFINITE and d != "std::iter::Scan":
        # a range without end is also a plain slice index: only adapters iterate over it
        return None if top and d == "std::ops::RangeFrom" else d
    args = [a for a in t.get("args", []) if isinstance(a, int)]
    if d.startswith(BOUNDING):
        fs = [infinite_type(P, a, seen, False) for a in args]
        if d.endswith("Take") or not all(fs):
            return None
        return [f for f in fs if f][0]
    if t["k"] in ("ref",):
        return infinite_type(P, t["to"], seen, top)
    if d.startswith(("std::iter::", "itertools::")):
        for a in args[:1]:
            r = infinite_type(P, a, seen, False)
            if r:
                return r
    return None


def endless(src):
    """iterator source that never ends by itself"""
    if src is None:
        return False
    if src.op in ("rangefrom", "cycle"):
        return True
    if src.op in ("zip", "multi"):
        return all(endless(x.a[0] if x.op == "iter" else x) for x in (src.a[0] if src.op == "multi" else src.a))
    if src.op in ("take",):
        return False
    if src.op in ("gen", "enum", "skip", "rev", "step_by", "skip_while", "take_while", "map_while", "scan", "chain", "ext"):
        return any(endless(x) for x in src.a if isinstance(x, T))
    return False


class Measures(object):
    def __init__(self, ctx, prover):
        self.ctx = ctx
        self.pr = prover
        self.bound_ok = None      # further condition on the bound of a counter

    def measure(self, lc, e):
        """name of a measure of loop lc (of engine e), or None"""
        its = [l for l in lc.lvs.values() if l.op == "itlv"]
        backs = [b for b in lc.backs if b.pc is not FALSE]
        if not backs:
            return "left after one pass"
        if lc.header is None or its:
            src = lc.src if lc.src is not None else (its[0].a[2].a[0] if its else None)
            if src is None and not its:
                return None
            srcs = [lc.src] if lc.src is not None else [l.a[2].a[0] for l in its]
            if any(not endless(s) for s in srcs) and self.advances(lc, its, backs):
                s = [s for s in srcs if not endless(s)][0]
                if s.op in ("range", "rangei") and self.unbacked(s):
                    r = self.consumes(lc, backs)
                    return "consumes" if r else None
                return "finite: " + show(s)[:60]
        for m in (self.consumes, self.counts, self.visits):
            r = m(lc, backs)
            if r:
                return r
        return None

    def advances(self, lc, its, backs):
        return True      # an itlv cell is only formed for iterators advanced once per pass

    def unbacked(self, s):
        """a range as long as a 32 bit or wider number stored in the input"""
        for x in leaves(s.a[1]):
            if x.op in ("int", "len", "bot") or x.op == "cast" and x.a[0] in ("u8", "u16"):
                continue
            if x.op == "bits" and max([q[0] + q[1] for q in x.a[1]] or [0]) <= 16:
                continue
            from arith import Arith
            if Arith([], self.pr.suffix, self.pr.countish).membound(x) and x.op not in ("cast", "bits"):
                continue
            return True
        return False

    def consumes(self, lc, backs):
        for c, lv in lc.lvs.items():
            if lv.op != "lv":
                continue
            ok = True
            for b in backs:
                v = under(b.env.get(c, BOT), b.pc)
                if not (self.ctx.peel(v, lv, True) or self.shrinks(v, lv, b.pc)):
                    ok = False
                    break
            if ok:
                return "consumes"
        # position into a slice
        return self.counts(lc, backs)

    def shrinks(self, v, lv, pc):
        """a slice or vector that loses elements"""
        for l in leaves(v):
            if l is BOT:
                continue
            if l.op == "sub2" and l.a[0] is lv and l.a[2].op == "len" and l.a[2].a[0] is lv:
                if not self.pr.excluded(AND(pc, NOT(lt(INT(0), l.a[1]))), [], "usize"):
                    return False
            else:
                return False
        return True

    def counts(self, lc, backs):
        for c, lv in lc.lvs.items():
            if lv.op != "lv":
                continue
            up = down = True
            for b in backs:
                v = under(b.env.get(c, BOT), b.pc)
                ls = [l for l in leaves(v) if l is not BOT]
                if not ls or any(l is lv for l in ls) or any(l.op not in ("bin", "int", "call", "fld", "bits", "cast", "lpv", "add") for l in ls):
                    up = down = False
                    break
                loops = list(lc.outer) + [lc] if hasattr(lc, "outer") else [lc]
                up = up and (all(self.adds(l, lv) for l in ls) or self.pr.excluded(AND(b.pc, NOT(lt(lv, v))), loops, "usize")) \
                    and self.bounded(lc, lv, b)
                down = down and self.pr.excluded(AND(b.pc, NOT(lt(v, lv))), loops, "usize") and self.unsigned(v)
                if not up and not down:
                    break
            if up or down:
                return "counts"
        return None

    def adds(self, l, lv):
        """l = lv + something positive (that the addition does not overflow is P01's)"""
        if l.op == "bin" and l.a[0] == "Add" and l.a[1] in UMAX:
            x, y = l.a[2:]
            return x is lv and self.positive(y) or y is lv and self.positive(x)
        return False

    def positive(self, y, depth=0):
        """at least 1 in every case"""
        if depth > 8:
            return False
        if y.op == "int":
            return y.a[0] > 0
        if y.op == "bin" and y.a[0] == "Add" and y.a[1] in UMAX:
            return self.positive(y.a[2], depth + 1) or self.positive(y.a[3], depth + 1)
        if y.op == "lpv":
            return self.positive(y.a[2], depth + 1)
        if y.op == "ite":
            return all(self.positive(x, depth + 1) for x in leaves(y) if x is not BOT)
        c, ch = y, []
        while c.op == "fld":
            ch.append(c)
            c = c.a[0]
        if c.op == "call" and ch and c.a[0] in self.ctx.P.bodies:
            v = self.ctx.unit_ret(c.a[0])
            if v is None:
                return False
            for f in reversed(ch):
                v = fld(v, *f.a[1:])
            return all(self.positive(x, depth + 1) for x in leaves(v) if x is not BOT)
        return False

    def unsigned(self, v):
        return all(l.op == "bin" and l.a[1] in UMAX for l in leaves(v) if l is not BOT)

    def bounded(self, lc, lv, b):
        mine = set(l for l in lc.lvs.values())

        def inv(x):
            if self.bound_ok is not None and not self.bound_ok(x):
                return False
            return not collect(x, lambda y: y in mine or y.op in ("el",) and y.a[0] == lc.depth)
        for lits in self.paths(b.pc):
            if not any(a.op == "lt" and (v and a.a[0] is lv and inv(a.a[1]) or not v and a.a[1] is lv and inv(a.a[0]))
                       or a.op == "eq" and not v and any(x is lv and inv(y) for x, y in (a.a, a.a[::-1])) for a, v in lits):
                return False
        return True

    def paths(self, pc):
        from arith import paths
        return paths(pc)

    def visits(self, lc, backs):
        for c, lv in lc.lvs.items():
            if lv.op != "lv":
                continue
            ok = True
            for b in backs:
                v = under(b.env.get(c, BOT), b.pc)
                for l in leaves(v):
                    if l is BOT:
                        continue
                    if not self.grown(l, lv, b.pc):
                        ok = False
            if ok:
                return "visits"
        return None

    def grown(self, l, lv, pc):
        while True:
            if l.op in ("setput", "mapput") and l.a[0] is lv:
                k = l.a[1]
                t = raw("setin", lv, k) if l.op == "setput" else raw("isv", raw("mapget", lv, k), 1)
                return assume(pc, t, True) is FALSE
            if l.op in ("setput", "mapput"):
                l = l.a[0]
                continue
            return False
