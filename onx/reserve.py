"""P04: what memory is reserved for is there already.

Every library call that reserves memory (with_capacity, reserve, resize, vec![x; n], repeat,
collecting an iterator that announces its length) is an obligation: the amount must be a small
constant, a number of things in memory (a length, a position, a sum of them), the size of the
file being read, or provably no larger than such a number where the call is made.  Amounts
given by a parameter are judged at the calls."""
from terms import *
from arith import Arith, UMAX
from engine import Unsupported

SMALL = 1 << 20
FILE_SIZE = ("std::fs::Metadata::len",)


class Strict(Arith):
    """like membound, but numbers stored in the input do not count"""

    def __init__(self, loops, R):
        Arith.__init__(self, loops, R.pr.suffix, lambda c: False)
        self.R = R
        self.needs = set()

    def membound(self, t, depth=0):
        if depth > 12:
            return False
        if t.op == "int":
            return 0 <= t.a[0] <= SMALL
        if t.op == "bits":
            return False
        if t.op == "cast":
            return self.membound(t.a[2], depth + 1)
        if t.op == "ite":
            return all(self.membound(x, depth + 1) for x in leaves(t) if x is not BOT)
        if t.op == "bin":
            op, ty, a, b = t.a
            if op == "Add":
                return self.membound(a, depth + 1) and self.membound(b, depth + 1)
            if op == "Mul":
                return any(x.op == "int" and 0 <= x.a[0] <= 64 and self.membound(y, depth + 1) for x, y in ((a, b), (b, a)))
            if op in ("Sub", "Div", "Rem", "Shr"):
                return self.membound(a, depth + 1)
            if op == "BitAnd":
                return self.membound(a, depth + 1) or self.membound(b, depth + 1)
            if op == "Shl":
                return b.op == "int" and b.a[0] <= 6 and self.membound(a, depth + 1)
            return False
        if t.op == "el":
            ctx = self.loops.get(t.a[0])
            src = getattr(ctx, "src", None) if ctx else None
            return src is not None and src.op in ("range", "rangei") and self.membound(src.a[1], depth + 1)
        if t.op == "sym" and t.a[0][:1] == "p" and t.a[0][1:].isdigit():
            self.needs.add(int(t.a[0][1:]))
            return True
        if t.op in ("call", "fld"):
            return self.counted(t, depth)
        return Arith.membound(self, t, depth)

    def counted(self, t, depth):
        ch, x = [], t
        while x.op == "fld":
            ch.append(x)
            x = x.a[0]
        if x.op != "call":
            return False
        if x.a[0] in FILE_SIZE or any(x.a[0] == f for f in FILE_SIZE):
            return True
        r = self.R.counts(x.a[0], [(y.a[1], y.a[2], y.a[3]) for y in reversed(ch)])
        if r is None:
            return False
        return all(1 + i < len(x.a) and self.membound(x.a[1 + i], depth + 1) for i in r)


class Reserve(object):
    def __init__(self, ctx, pr):
        self.ctx = ctx
        self.pr = pr
        self.memo = {}

    def counts(self, path, fields):
        """parameters that must count things in memory for the result of path to do so"""
        if path not in self.ctx.P.bodies:
            return None
        key = (path, tuple(fields))
        if key not in self.memo:
            self.memo[key] = None
            v = self.ctx.unit_ret(path)
            if v is not None:
                for f in fields:
                    v = fld(v, *f)
                S = Strict([], self)
                if all(S.membound(l) for l in leaves(v) if l is not BOT and l is not ERR and not contains(l, lambda y: y is ERR)):
                    self.memo[key] = frozenset(S.needs)
        return self.memo[key]

    def backed(self, n, pc, loops):
        """None: not backed; else the parameters that have to be"""
        S = Strict(loops, self)
        need = set()
        for lits, l in cases(n):
            if l is BOT:
                continue
            c = pc
            for a, v in lits:
                c = AND(c, a if v else NOT(a))
            if c is FALSE:
                continue
            S.needs = set()
            if S.membound(l):
                if not S.needs or not self.limited(l, c, loops, S):
                    need |= S.needs
                continue
            if not self.limited(l, c, loops, S):
                return None
        return need

    def limited(self, n, pc, loops, S):
        """is n at most some count of things in memory, or a small constant, whenever pc holds?"""
        cands = set(collect(pc, lambda y: y.op == "len")) | set(collect(n, lambda y: y.op == "len"))
        out = [INT(SMALL)] + sorted((c for c in cands), key=lambda t: t._k)[:12]
        for c in collect(pc, lambda y: y.op == "lt"):
            for x in c.a:
                if x.op in ("int", "bits", "len"):
                    continue
                S2 = Strict(list(S.loops.values()), self)
                if S2.membound(x) and not S2.needs:
                    out.append(x)
        for c in out:
            if self.pr.excluded(AND(pc, lt(c, n)), loops, "usize"):
                return True
        return False


def cases(v, lits=()):
    if v.op == "ite":
        for x in cases(v.a[1], lits + ((v.a[0], True),)):
            yield x
        for x in cases(v.a[2], lits + ((v.a[0], False),)):
            yield x
    else:
        yield lits, v
