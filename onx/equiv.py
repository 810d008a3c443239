"""Equivalence of two canonical gated values by simultaneous case splitting.

`equal(a, b)` decides whether two terms denote the same value: it splits both on the tests
that occur in either of them (also inside constructor fields and call arguments), assumes
each outcome in both, and compares what is left structurally.  Don't-care values (`bot`)
compare equal to anything.  `False` means: not shown equal within the budget."""
from terms import *
import terms


class Budget(Exception):
    pass


_da = {}
VECNIL = raw("vecnil")


def EMPTY(atom):
    """what has no elements if the test holds"""
    x, y = atom.a
    if x is INT(0) and y.op == "len":
        return y.a
    if y is INT(0) and x.op == "len":
        return x.a
    return ()




def deep_assume(t, atom, val):
    if t is atom:
        return TRUE if val else FALSE
    if not t.a:
        return t
    if val and atom.op == "eq" and t in EMPTY(atom):
        return VECNIL
    key = (id(t), id(atom), val)
    r = _da.get(key)
    if r is not None:
        return r[0]
    if t.op == "ite":
        im = implied(atom, val, t.a[0])
        if im is not None:
            r = deep_assume(t.a[1] if im else t.a[2], atom, val)
        else:
            c = deep_assume(t.a[0], atom, val)
            r = ite(c, deep_assume(t.a[1], atom, val), deep_assume(t.a[2], atom, val))
    else:
        im = implied(atom, val, t) if t.op in BOOLOPS else None
        if im is not None:
            r = TRUE if im else FALSE
        elif t.op in ("gen", "lp", "flat") and bound_in(atom):
            r = t
        else:
            def s(x):
                if isinstance(x, T):
                    return deep_assume(x, atom, val)
                if isinstance(x, tuple):
                    return tuple(s(y) for y in x)
                return x
            na = tuple(s(x) for x in t.a)
            r = t if na == t.a else rebuild(t.op, na)
    _da[key] = (r, t, atom)
    return r


_nb = {}


def bound_in(t):
    """mentions a loop-bound symbol?"""
    r = _nb.get(id(t))
    if r is None:
        r = (t.op in ("elb", "lvb", "moreb", "el", "lv"), t)
        if not r[0]:
            st = list(t.a)
            v = False
            while st and not v:
                x = st.pop()
                if isinstance(x, T):
                    v = bound_in(x)
                elif isinstance(x, tuple):
                    st.extend(x)
            r = (v, t)
        _nb[id(t)] = r
    return r[0]


_ic = {}


def int_tests(t):
    """{term: (constants it is compared with, compared by order?)} over all tests in t"""
    r = _ic.get(id(t))
    if r is None:
        out, seen, st = {}, set(), [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, T) or id(x) in seen:
                continue
            seen.add(id(x))
            if x.op in ("eq", "lt"):
                p, q = x.a
                for c, y in ((p, q), (q, p)):
                    if c.op == "int" and y.op != "int":
                        e = out.setdefault(id(y), [y, set(), False])
                        e[1].add(c.a[0])
                        e[2] = e[2] or x.op == "lt"
            st.extend(x.a)
        r = (out, t)
        _ic[id(t)] = r
    return r[0]


def regions(a, b, atom):
    """the cases that decide every comparison of atom's integer with a constant, if some of
    them are by order and some by equality: lists of (test, outcome)"""
    p, q = atom.a
    x = p if q.op == "int" else q if p.op == "int" else None
    if x is None or x.op == "int" or bound_in(x):
        return None
    cs, order = set(), False
    for t in (a, b):
        e = int_tests(t).get(id(x))
        if e:
            cs |= e[1]
            order = order or e[2]
    if not order or not 3 <= len(cs) <= 40:
        return None
    cs = sorted(cs)
    if unsigned(x):
        cs = sorted(set([0] + [c for c in cs if c >= 0]))
        out = []
    else:
        out = [[(lt(x, INT(cs[0])), True)]]
    for c, d in zip(cs, cs[1:] + [None]):
        out.append([(eq(x, INT(c)), True)])
        if d is None:
            out.append([(lt(x, INT(c + 1)), False)])
        elif d > c + 1:
            out.append([(lt(x, INT(c + 1)), False), (lt(x, INT(d)), True)])
    return out


_ni = {}


def nested_atom(t):
    """smallest atom of an ite nested anywhere in t (None if there is none)"""
    r = _ni.get(id(t))
    if r is None:
        best = None
        if t.op == "ite":
            best = t.a[0]
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                if x.size > 1:
                    y = nested_atom(x)
                    if y is not None and (best is None or y._k < best._k):
                        best = y
            elif isinstance(x, tuple):
                st.extend(x)
        r = (best, t)
        _ni[id(t)] = r
    return r[0]


class Eq(object):
    def __init__(self, budget=60000):
        self.n = budget
        self.memo = {}

    def eq(self, a, b):
        if a is b or a is BOT or b is BOT:
            return True
        key = (id(a), id(b))
        r = self.memo.get(key)
        if r is not None:
            return r
        self.n -= 1
        if self.n < 0:
            raise Budget()
        r = self._eq(a, b)
        self.memo[key] = r
        return r

    def split(self, a, b, atom):
        n = variants_of(atom)
        if n > 2:
            # one case per variant
            return all(self.eq(deep_assume(a, v, True), deep_assume(b, v, True))
                       for v in (raw("isv", atom.a[0], i, n) for i in range(n)))
        rs = regions(a, b, atom) if atom.op in ("eq", "lt") else None
        if rs is not None:
            for case in rs:
                x, y = a, b
                for t, v in case:
                    if t in (TRUE, FALSE):
                        if v != (t is TRUE):
                            break
                        continue
                    while t.op == "ite" and t.a[2] in (TRUE, FALSE) and v != (t.a[2] is TRUE):
                        # a conjunction of tests that must hold
                        x, y = deep_assume(x, t.a[0], True), deep_assume(y, t.a[0], True)
                        t = t.a[1]
                    if t in (TRUE, FALSE):
                        continue
                    x, y = deep_assume(x, t, v), deep_assume(y, t, v)
                else:
                    if not self.eq(x, y):
                        return False
            return True
        if self.eq(deep_assume(a, atom, True), deep_assume(b, atom, True)) and \
                self.eq(deep_assume(a, atom, False), deep_assume(b, atom, False)):
            return True
        if atom.op in ("eq", "lt"):
            # tests of a length: 0, 1, 2, more
            n, c = atom.a if atom.a[0].op == "len" else atom.a[::-1]
            if n.op == "len" and c.op == "int" and c.a[0] <= 2:
                cases = [(eq(n, INT(k)), True) for k in range(3)] + [(lt(n, INT(3)), False)]
                return all(self.eq(deep_assume(a, x, v), deep_assume(b, x, v)) for x, v in cases)
        return False

    def _eq(self, a, b):
        isb = boolish(a) or boolish(b)
        best = None
        for t in (a, b):
            k = t.a[0] if t.op == "ite" else (t if isb and t.op not in ("true", "false") else None)
            if k is not None and (best is None or k._k < best._k):
                best = k
        if best is not None:
            if isb and a.op not in ("ite", "true", "false") and b.op not in ("ite", "true", "false"):
                # two atoms
                return self.struct(a, b) or self.nested(a, b)
            # the outcome tests may be written differently but equal: try to unify first
            if a.op == "ite" and b.op == "ite" and a.a[0] is not b.a[0]:
                if self.quick(a.a[0], b.a[0]):
                    if self.eq(a.a[1], b.a[1]) and self.eq(a.a[2], b.a[2]):
                        return True
            return self.split(a, b, best)
        return self.struct(a, b) or self.nested(a, b)

    def quick(self, x, y):
        return x.op == y.op and self.struct(x, y)

    def nested(self, a, b):
        x, y = nested_atom(a), nested_atom(b)
        c = [z for z in (x, y) if z is not None and not bound_in(z)]
        if not c:
            return False
        at = min(c, key=lambda z: z._k)
        a1, b1 = deep_assume(a, at, True), deep_assume(b, at, True)
        a0, b0 = deep_assume(a, at, False), deep_assume(b, at, False)
        if (a1 is a and b1 is b) or (a0 is a and b0 is b):
            return False
        if variants_of(at) > 2:
            return self.split(a, b, at)
        return self.eq(a1, b1) and self.eq(a0, b0)

    def struct(self, a, b):
        if a.op != b.op and "adt" in (a.op, b.op):
            # Some(x.some) where x is known to be Some
            v, t = (a, b) if a.op == "adt" else (b, a)
            fs = v.a[3]
            return len(fs) > 0 and v.a[0] in ("std::option::Option", "std::result::Result") and all(
                f.op == "fld" and f.a[0] is t and f.a[1] == v.a[1] and f.a[2] == i for i, f in enumerate(fs))
        if a.op != b.op and "skip" in (a.op, b.op) and "sub2" in (a.op, b.op):
            # v[k..] and what is left of v after k elements
            v, w = (a, b) if a.op == "sub2" else (b, a)
            return v.a[2].op == "len" and v.a[2].a[0] is v.a[0] and self.eq(v.a[0], w.a[0]) and self.eq(v.a[1], w.a[1])
        if a.op != b.op or len(a.a) != len(b.a) or not a.a:
            return False
        if a.op == "lp":
            # what an iteration leaves behind matters only if the loop goes on
            (h, s, i, u, n, c), (h2, s2, i2, u2, n2, c2) = a.a, b.a
            if not (h == h2 and self.eq(s, s2) and self.eq(c, c2) and self.arg(i, i2) and len(u) == len(u2) and len(n) == len(n2)):
                return False
            if u == u2 and n == n2:
                return True
            if not all(self.eq_unless(c, x, c2, y) for x, y in zip(n, n2)):
                return False
            for x, y in zip(n, n2):
                c, c2 = OR(c, x), OR(c2, y)
            return all(self.eq_unless(c, x, c2, y) for x, y in zip(u, u2))
        return all(self.arg(x, y) for x, y in zip(a.a, b.a))

    def eq_unless(self, c, x, c2, y):
        """equal wherever c (which equals c2) does not hold"""
        k = FALSE if boolish(x) or boolish(y) else UNIT
        return self.eq(ite(c, k, x), ite(c2, k, y))

    def arg(self, x, y):
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.arg(p, q) for p, q in zip(x, y))
        return x == y


def bit_sources(*ts):
    """the byte-wide values of which some single bits are tested: {id: (value, width)}"""
    out, seen, st = {}, set(), list(ts)
    single = False
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "bits":
            for (at, n, src, lo, sw) in x.a[1]:
                if src is not None and sw <= 8:
                    out[id(src)] = (src, sw)
        elif x.op == "eq":
            single = single or any(oneseg(y)[2] == 1 for y in x.a)
        st.extend(x.a)
    return out if single else {}


def bitwise(t, srcs):
    """t with every test of a few bits of those values written as tests of single bits"""
    memo = {}

    def one(x, y):
        if y.op != "int" or y.a[0] < 0:
            return None
        if id(x) in srcs:
            src, w = srcs[id(x)]
            keep = [((src, i, w), (y.a[0] >> i) & 1) for i in range(w)]
            if y.a[0] >> w:
                return FALSE
        elif x.op == "bits" and all(q[2] is not None and id(q[2]) in srcs for q in x.a[1]):
            keep = []
            for i, b in enumerate(tobits(x.a[0], x)):
                c = (y.a[0] >> i) & 1
                if isinstance(b, tuple):
                    keep.append((b, c))
                elif b != c:
                    return FALSE
        else:
            return None
        if not 2 <= len(keep) <= 8:
            return None
        r = TRUE
        for b, c in keep:
            r = AND(r, terms.eqbits(frombits("u8", [b]), c))
        return r

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.a:
            return x
        r = memo.get(id(x))
        if r is None:
            r = x
            if x.op == "eq":
                r = one(*x.a) or one(*x.a[::-1]) or x
            if r is x:
                na = tuple(go(y) for y in x.a)
                r = x if na == x.a else rebuild(x.op, na)
            memo[id(x)] = r
        return r
    return go(t)


def equal(a, b, budget=60000):
    try:
        if Eq(budget).eq(a, b):
            return True
        srcs = bit_sources(a, b)
        if srcs:
            a2, b2 = bitwise(a, srcs), bitwise(b, srcs)
            if a2 is not a or b2 is not b:
                return Eq(budget).eq(a2, b2)
    except Budget:
        pass
    return False
