"""Numeric abstract domain used by the panic and termination rules.

Facts are linear inequalities between value terms (mathematical integers), taken from the
branch conditions that dominate a site, from the ranges of the types and from what is known
about loops (range bounds, enumerate positions, chunk lengths, counters).  `refuted(lits)`
says whether a conjunction of branch literals together with these facts is impossible."""
from fractions import Fraction
from terms import *

UMAX = {k: (1 << w) - 1 for k, w in WID.items() if k[0] == "u"}
MEM = (1 << 63) - 1          # no object is larger than isize::MAX bytes


class Lin(object):
    """sum coef*atom + const  >= 0"""
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k

    def add(self, o, f=1):
        c = dict(self.c)
        for a, v in o.c.items():
            n = c.get(a, 0) + v * f
            if n:
                c[a] = n
            else:
                c.pop(a, None)
        return Lin(c, self.k + o.k * f)

    def key(self):
        return (frozenset(self.c.items()), self.k)


class Arith(object):
    def __init__(self, loops, suffix_calls=None, countish=None):
        self.loops = {c.depth: c for c in loops}
        self.suffix = suffix_calls or (lambda p, i: False)
        self.countish = countish or (lambda c: False)
        self.busy = set()

    # ------------------------------------------------------------ linear forms
    def lin(self, t):
        if t.op == "int":
            return Lin({}, t.a[0])
        if t.op == "bin":
            op, ty, a, b = t.a
            if op == "Add":
                return self.lin(a).add(self.lin(b))
            if op == "Sub":
                return self.lin(a).add(self.lin(b), -1)
            if op == "Mul":
                for x, y in ((a, b), (b, a)):
                    if x.op == "int":
                        return Lin().add(self.lin(y), x.a[0])
        if t.op == "cast":
            f, to, x = t.a
            if f in WID and to in WID and f[0] == "u" and (WID[to] > WID[f] or to[0] == "u" and WID[to] == WID[f]):
                return self.lin(x)
        if t.op == "len":
            return self.linlen(t)
        return Lin({t: 1}, 0)

    def linlen(self, t):
        x = t.a[0]
        if x.op == "sub2":
            return self.lin(x.a[2]).add(self.lin(x.a[1]), -1)
        k = self.elemlen(x)
        if k is not None:
            return Lin({}, k)
        return Lin({t: 1}, 0)

    def elemlen(self, x):
        """length of the element of chunks_exact(_, k)"""
        if x.op == "el":
            ctx = self.loops.get(x.a[0])
            src = getattr(ctx, "src", None) if ctx else None
            if src is not None and src.op == "chunks_exact" and src.a[1].op == "int":
                return src.a[1].a[0]
        return None

    # ------------------------------------------------------------ facts about atoms
    def range_of(self, t, ty=None):
        """[lo, hi] of an opaque value"""
        if t.op == "bits":
            hi = max([s[0] + s[1] for s in t.a[1]] or [0])
            return 0, (1 << hi) - 1
        if t.op == "len":
            return 0, MEM
        if t.op == "cast":
            f, to, x = t.a
            r = self.range_of(x, f)
            if r[0] is not None and to in WID:
                lo, hi = (0, UMAX[to]) if to[0] == "u" else (-(1 << (WID[to] - 1)), (1 << (WID[to] - 1)) - 1)
                if lo <= r[0] and r[1] is not None and r[1] <= hi:
                    return r
                return lo, hi
            if to in UMAX:
                return 0, UMAX[to]
            return None, None
        if t.op == "bin" and t.a[1] in UMAX:
            if t.a[0] == "BitAnd":
                for x in t.a[2:]:
                    if x.op == "int":
                        return 0, x.a[0]
            if t.a[0] == "Rem" and t.a[3].op == "int":
                return 0, t.a[3].a[0] - 1
            if t.a[0] in ("Div", "Shr"):
                r = self.range_of(t.a[2], t.a[1])
                if r[0] is not None:
                    return 0, r[1]
            return 0, UMAX[t.a[1]]
        if t.op == "int":
            return t.a[0], t.a[0]
        if ty in UMAX:
            return 0, UMAX[ty]
        if ty in WID:
            return -(1 << (WID[ty] - 1)), (1 << (WID[ty] - 1)) - 1
        return None, None

    def position(self, t):
        """(source term, ...) if t is a position inside a sequence: 0 <= t < len(source)"""
        # enumerate position of the current element
        if t.op == "fld" and t.a[0].op == "el" and t.a[2] == 0 and t.a[3] and t.a[3][0] == "tuple":
            ctx = self.loops.get(t.a[0].a[0])
            src = getattr(ctx, "src", None) if ctx else None
            if src is not None and src.op == "enum":
                return src.a[0]
        # position found by a finished search loop
        if t.op == "lpv":
            lp, tag, v = t.a
            h, src = lp.a[0], lp.a[1]
            if tag.op != "done" and src.op == "enum" and v.op == "fld" and v.a[0].op == "elb" and v.a[0].a[0] == h and v.a[2] == 0:
                return src.a[0]
        return None

    def stops(self, t):
        """constants that the position t does not pass: every further iteration tests for them"""
        ctx = self.loops.get(t.a[0].a[0])
        if not getattr(ctx, "backs", None) or getattr(ctx, "guards", None):
            return ()
        ks = None
        try:
            for b in ctx.backs:
                for lits in paths(b.pc):
                    here = set()
                    for a, v in lits:
                        if a.op == "eq" and not v:
                            here |= {x.a[0] for x, y in (a.a, a.a[::-1]) if x.op == "int" and y is t}
                        if a.op == "lt" and v and a.a[0] is t and a.a[1].op == "int":
                            here.add(a.a[1].a[0])
                    ks = here if ks is None else ks & here
        except OverflowError:
            return ()
        return [k for k in ks or () if k >= 0]

    def facts(self, t, ty=None):
        """inequalities about atom t (each >= 0) and atoms they mention"""
        out = []
        lo, hi = self.range_of(t, ty)
        me = Lin({t: 1}, 0)
        if lo is not None:
            out.append(me.add(Lin({}, lo), -1))
        if hi is not None:
            out.append(Lin({}, hi).add(me, -1))
        p = self.position(t)
        if p is not None:
            out.append(me)
            out.append(self.lin(raw("len", p)).add(me, -1).add(Lin({}, -1)))
            if t.op == "fld":
                for k in self.stops(t):
                    out.append(Lin({}, k).add(me, -1))
        if t.op == "el":
            ctx = self.loops.get(t.a[0])
            src = getattr(ctx, "src", None) if ctx else None
            if src is not None and src.op == "range":
                out.append(me.add(self.lin(src.a[0]), -1))
                out.append(self.lin(src.a[1]).add(me, -1).add(Lin({}, -1)))
            if src is not None and src.op == "rangei":
                out.append(me.add(self.lin(src.a[0]), -1))
                out.append(self.lin(src.a[1]).add(me, -1))
        if t.op == "bits" and len(t.a[1]) == 1:
            at, n, x, k, w = t.a[1][0]
            if at == 0 and x is not None and k and k + n == w:
                # x >> k
                out.append(self.lin(x).add(me, -(1 << k)))
                out.append(Lin({}, (1 << k) - 1).add(self.lin(x), -1).add(me, 1 << k))
        if t.op == "bin" and t.a[0] == "Div":
            a, b = t.a[2], t.a[3]
            out.append(me)
            if b.op == "int" and b.a[0] > 0:
                out.append(self.lin(a).add(me, -b.a[0]))
                out.append(Lin({}, b.a[0] - 1).add(self.lin(a), -1).add(me, b.a[0]))
            else:
                out.append(self.lin(a).add(me, -1))
        if t.op == "bin" and t.a[0] == "Mul":
            for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
                if x.op == "bin" and x.a[0] == "Div":
                    # k < n  =>  (a / n) * k + (a / n) <= a
                    a, n = x.a[2], x.a[3]
                    s = self.position(y)
                    if s is not None and n.op == "len" and n.a[0] is s:
                        out.append(me)
                        out.append(self.lin(a).add(me, -1).add(self.lin(x), -1))
        if t.op == "lv":
            out += self.counter(t)
        if t.op == "len":
            out += self.reader_suffix(t)
        return out

    def reader_suffix(self, t):
        """len of what a reader has left after a call <= len before it"""
        x = t.a[0]
        out = []
        if x.op == "fld" and x.a[0].op == "out":
            c, i = x.a[0].a[0], x.a[0].a[1]
            if c.op == "call" and self.suffix(c.a[0], i):
                arg = None
                for y in c.a[1:]:
                    pass
                if i + 1 < len(c.a):
                    arg = c.a[1 + i]
                if arg is not None:
                    before = raw("len", fld(arg, x.a[1], x.a[2], x.a[3]))
                    out.append(self.lin(before).add(Lin({t: 1}, 0), -1))
        return out

    # ------------------------------------------------------------ loop counters
    def counter(self, lv):
        """invariants of a loop-carried integer, each checked to be inductive"""
        out = []
        d = lv.a[0]
        ctx = self.loops.get(d)
        if ctx is None or lv in self.busy or not hasattr(ctx, "backs"):
            return out
        cell = [c for c, v in ctx.lvs.items() if v is lv]
        if len(cell) != 1:
            return out
        cell = cell[0]
        init = ctx.inits.get(cell)
        ups = []
        for b in ctx.backs:
            u = under(b.env.get(cell, BOT), b.pc)
            ups.append((b.pc, u))
        g = getattr(ctx, "guard", TRUE)
        self.busy.add(lv)
        try:
            me = Lin({lv: 1}, 0)
            # non-negative / at least the initial value
            steps = []       # (literals, increment Lin)
            ok = init is not None and init.op == "int"
            for pc, u in ups:
                for lits in paths(pc):
                    uu = u
                    for a, v in lits:
                        uu = assume(uu, a, v)
                    for lits2, leaf in vpaths(uu):
                        if leaf is BOT:
                            continue
                        steps.append((lits + lits2, self.lin(leaf).add(me, -1), leaf))
            if ok:
                i0 = init.a[0]
                mono = all(self.refuted(l, [Lin({}, -1).add(inc, -1)]) for l, inc, _ in steps)
                if mono:
                    out.append(me.add(Lin({}, -i0)))
                # upper bounds given by an exit test against a constant
                ks = set()
                for l, inc, _ in steps:
                    for a, v in l:
                        if a.op == "eq" and not v:
                            for x, y in (a.a, a.a[::-1]):
                                if x.op == "int" and y is lv:
                                    ks.add(x.a[0])
                        if a.op == "lt" and v and a.a[0] is lv and a.a[1].op == "int":
                            ks.add(a.a[1].a[0])
                for k in sorted(ks):
                    if k < i0:
                        continue
                    inv = Lin({}, k).add(me, -1)
                    # under lv <= k the next value is <= k as well
                    if all(self.refuted(l, [inv, inc.add(me).add(Lin({}, -k - 1))]) for l, inc, _ in steps):
                        out.append(inv)
                # a counter that grows by at most one per element never exceeds the position
                src = getattr(ctx, "src", None)
                if src is not None and src.op == "enum" and i0 == 0:
                    pos = raw("fld", raw("el", d), None, 0, ("tuple", 2))
                    if all(self.refuted(l, [inc.add(Lin({}, -2))]) for l, inc, _ in steps):
                        out.append(self.lin(pos).add(me, -1))
        finally:
            self.busy.discard(lv)
        return out

    # ------------------------------------------------------------ "counts things in memory"
    def membound(self, t, depth=0):
        """a sum of numbers of in-memory items (or of 32-bit quantities, one per such item):
        cannot exceed 2^64 on any machine that holds the items"""
        if depth > 12:
            return False
        if t.op == "int":
            return 0 <= t.a[0] < 1 << 32
        if t.op == "len" or self.position(t) is not None:
            return True
        if t.op == "ite":
            return all(self.membound(x, depth + 1) for x in leaves(t))
        if t.op == "bot":
            return True
        if t.op == "bits":
            return max([s[0] + s[1] for s in t.a[1]] or [0]) <= 32
        if t.op == "cast":
            return t.a[0] in ("u8", "u16", "u32")
        if t.op == "bin" and t.a[0] == "Add":
            return self.membound(t.a[2], depth + 1) and self.membound(t.a[3], depth + 1)
        if t.op == "bin" and t.a[0] in ("Sub", "Div", "Rem"):
            return self.membound(t.a[2], depth + 1)
        if t.op == "fld" and t.a[0].op == "lv":
            # a part of a carried tuple or struct
            ctx = self.loops.get(t.a[0].a[0])
            if t in self.busy:
                return True
            if ctx is None or not hasattr(ctx, "backs") or ctx.src is None or ctx.src.op in ("range", "rangei", "rangefrom"):
                return False
            cell = [c for c, v in ctx.lvs.items() if v is t.a[0]]
            if len(cell) != 1 or ctx.inits.get(cell[0]) is None:
                return False

            def part(x):
                return lift(lambda y: y.a[3][t.a[2]] if y.op == "adt" and t.a[2] < len(y.a[3]) else fld(y, *t.a[1:]), x)
            self.busy.add(t)
            try:
                return self.membound(part(ctx.inits[cell[0]]), depth + 1) and all(
                    self.membound(u, depth + 1) for b in ctx.backs for u in leaves(part(under(b.env.get(cell[0], BOT), b.pc))))
            finally:
                self.busy.discard(t)
        if t.op == "lv":
            if t in self.busy:
                return True
            ctx = self.loops.get(t.a[0])
            if ctx is None or not hasattr(ctx, "backs"):
                return False
            if ctx.src is None or ctx.src.op in ("range", "rangei", "rangefrom"):
                return False          # not a pass over a collection
            cell = [c for c, v in ctx.lvs.items() if v is t]
            if len(cell) != 1 or ctx.inits.get(cell[0]) is None:
                return False
            self.busy.add(t)
            try:
                return self.membound(ctx.inits[cell[0]], depth + 1) and all(
                    self.membound(u, depth + 1) for b in ctx.backs for u in leaves(under(b.env.get(cell[0], BOT), b.pc)))
            finally:
                self.busy.discard(t)
        if t.op == "lpv":
            lp, tag, v = t.a
            if lp.a[1] is UNIT or lp.a[1].op in ("range", "rangei", "rangefrom"):
                return False
            if v.op == "lvb" and v.a[0] == lp.a[0]:
                i = v.a[1]
                return self.membound(lp.a[2][i], depth + 1) and self.membacc(lp.a[3][i], v, depth + 1)
            return False
        if self.countish(t):
            return True
        return False

    def membacc(self, u, lvb, depth):
        if u is lvb:
            return True
        if u.op == "ite":
            return all(self.membacc(x, lvb, depth + 1) for x in leaves(u))
        if u.op == "bin" and u.a[0] == "Add":
            return all(self.membacc(x, lvb, depth + 1) for x in u.a[2:])
        return self.membound(u, depth + 1)

    # ------------------------------------------------------------ literals
    def lit_facts(self, a, v, ty=None):
        """linear facts (each >= 0) implied by literal a == v; None = plainly impossible"""
        if a.op == "lt":
            x, y = self.lin(a.a[0]), self.lin(a.a[1])
            if v:
                return [y.add(x, -1).add(Lin({}, -1))]
            return [x.add(y, -1)]
        if a.op == "eq":
            x, y = a.a
            if x.op in ("str", "adt", "unit", "float", "bytes") or y.op in ("str", "adt", "unit", "float", "bytes"):
                return []
            if v:
                p, q = self.lin(x), self.lin(y)
                return [p.add(q, -1), q.add(p, -1)]
            # x != c with c at the edge of the range
            for c, t in ((x, y), (y, x)):
                if c.op == "int":
                    lo, hi = self.range_of(t, ty)
                    if t.op == "len" and self.linlen(t).c == {}:
                        continue
                    if lo is not None and lo == c.a[0]:
                        return [self.lin(t).add(Lin({}, -lo - 1))]
                    if hi is not None and hi == c.a[0]:
                        return [Lin({}, hi - 1).add(self.lin(t), -1)]
            return []
        if a.op == "ovf" and v:
            op, ty, x, y = a.a
            if ty not in WID:
                return []
            lo, hi = (0, UMAX[ty]) if ty[0] == "u" else (-(1 << (WID[ty] - 1)), (1 << (WID[ty] - 1)) - 1)
            p, q = self.lin(x), self.lin(y)
            r = p.add(q) if op == "Add" else p.add(q, -1) if op == "Sub" else None
            if r is None:
                for s, tt in ((x, y), (y, x)):
                    if s.op == "int":
                        r = Lin().add(self.lin(tt), s.a[0])
                if r is None:
                    r = Lin({raw("bin", "Mul", ty, *sorted((x, y), key=lambda t: t._k)): 1}, 0)
            if lo == 0:
                if op == "Sub":
                    return [Lin({}, -1).add(r, -1)]
                return [r.add(Lin({}, -hi - 1))]
            return ("or", [r.add(Lin({}, -hi - 1))], [Lin({}, lo - 1).add(r, -1)])
        return []

    def refuted(self, lits, extra=(), types=None):
        """is the conjunction impossible?"""
        fs = list(extra)
        ors = []
        ne = []
        for a, v in lits:
            if a.op == "isv" and not v:
                pass
            f = self.lit_facts(a, v, types)
            if isinstance(f, tuple):
                ors.append(f)
            else:
                fs += f
            if a.op == "eq" and not v:
                ne.append(a)
            if a.op == "lexit" and v and a.a[1].op != "done":
                # a search loop that stopped early saw at least one element
                src = a.a[0].a[1]
                while src.op == "enum":
                    src = src.a[0]
                if src.op not in ("range", "rangei", "rangefrom", "unit"):
                    fs.append(self.lin(raw("len", src)).add(Lin({}, -1)))
            if a.op == "ovf" and v and a.a[0] == "Add" and a.a[1] in ("usize", "u64") and self.membound(a.a[2]) and self.membound(a.a[3]):
                return True
        if ors:
            return all(self.solve(fs + list(x), ne, types) for x in ors[0][1:])
        return self.solve(fs, ne, types)

    def solve(self, fs, ne=(), types=None):
        # close under facts about the atoms that occur
        seen = set()
        work = list(fs)
        allf = list(fs)
        rounds = 0
        while work and rounds < 200:
            rounds += 1
            new = []
            for l in work:
                for t in l.c:
                    if t in seen:
                        continue
                    seen.add(t)
                    new += self.facts(t, types)
            allf += new
            work = new
        if infeasible(allf):
            return True
        # x != y splits
        for a in list(ne)[:3]:
            x, y = a.a
            if x.op in ("str", "adt", "unit", "float", "bytes") or y.op in ("str", "adt", "unit", "float", "bytes"):
                continue
            d = self.lin(x).add(self.lin(y), -1)
            if not d.c or not (set(d.c) & seen):
                continue
            if infeasible(allf + [d.add(Lin({}, -1))]) and infeasible(allf + [Lin({}, -1).add(d, -1)]):
                return True
        return False


def infeasible(fs):
    """Fourier-Motzkin with integer tightening of single-variable rows; incomplete by size cut"""
    rows = {}
    for l in fs:
        if not l.c:
            if l.k < 0:
                return True
            continue
        rows[l.key()] = l
    rows = list(rows.values())
    while True:
        vars_ = {}
        for l in rows:
            for a in l.c:
                p, n = vars_.get(a, (0, 0))
                if l.c[a] > 0:
                    p += 1
                else:
                    n += 1
                vars_[a] = (p, n)
        if not vars_:
            return False
        x = min(vars_, key=lambda a: (vars_[a][0] * vars_[a][1] - vars_[a][0] - vars_[a][1], a._k))
        pos = [l for l in rows if l.c.get(x, 0) > 0]
        neg = [l for l in rows if l.c.get(x, 0) < 0]
        rest = {l.key(): l for l in rows if x not in l.c}
        if len(pos) * len(neg) > 4000:
            return False
        for p in pos:
            for q in neg:
                r = Lin().add(p, -q.c[x]).add(q, p.c[x])
                if not r.c:
                    if r.k < 0:
                        return True
                    continue
                g = 0
                from math import gcd
                for v in r.c.values():
                    g = gcd(g, abs(v))
                if g > 1:
                    r = Lin({a: v // g for a, v in r.c.items()}, r.k // g)
                rest[r.key()] = r
        rows = list(rest.values())
        if len(rows) > 6000:
            return False


def paths(t, lits=(), limit=4000):
    """conjunctions (lists of (atom, value)) under which boolean term t is true"""
    out = []
    st = [(t, list(lits))]
    while st:
        x, l = st.pop()
        if x is TRUE:
            out.append(l)
        elif x is FALSE or x is BOT:
            continue
        elif x.op == "ite":
            st.append((x.a[1], l + [(x.a[0], True)]))
            st.append((x.a[2], l + [(x.a[0], False)]))
        else:
            out.append(l + [(x, True)])
        if len(out) > limit:
            raise OverflowError("too many paths")
    return out


def vpaths(t, limit=4000):
    """(conjunction, leaf) pairs of a gated value"""
    out = []
    st = [(t, [])]
    while st:
        x, l = st.pop()
        if x.op == "ite":
            st.append((x.a[1], l + [(x.a[0], True)]))
            st.append((x.a[2], l + [(x.a[0], False)]))
        else:
            out.append((l, x))
        if len(out) > limit:
            raise OverflowError("too many paths")
    return out
