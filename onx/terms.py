"""Hash-consed value terms with multi-terminal decision diagrams (gated values).

A *term* is an abstract value.  `ite(atom, hi, lo)` nodes are gated values; the atoms on
every path are strictly ordered, so two programs that compute the same gated value from
the same primitive operations get the *same object*, however the branches were written."""
import hashlib, re, sys

sys.setrecursionlimit(100000)
_tab = {}

# work counter: analyses are abandoned (Budget) when a case split explodes
work = [0, 1 << 62]


class Budget(OverflowError):
    pass


def limit(n):
    """allow n more steps of work; returns the previous limit"""
    old = work[1]
    work[1] = min(old, work[0] + n)
    return old


class T(object):
    __slots__ = ("op", "a", "size", "cd", "_d", "_k")

    def __repr__(self):
        return show(self)


def _digest(x):
    if isinstance(x, T):
        return x._d
    if isinstance(x, tuple):
        return b"(" + b",".join(_digest(y) for y in x) + b")"
    return repr(x).encode()


def raw(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        n = 1
        cd = 0
        for x in a:
            if isinstance(x, T):
                n += x.size
                if x.cd > cd:
                    cd = x.cd
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        y = [z for z in y if isinstance(z, T)]
                    else:
                        y = (y,)
                    for z in y:
                        if isinstance(z, T):
                            n += z.size
                            if z.cd > cd:
                                cd = z.cd
                        else:
                            n += 1
        if op in ("call", "lp"):
            cd += 2
        elif op == "isv":
            cd += 1      # outcomes of calls are tested after the data they were given
        t.size = n
        t.cd = cd
        t._d = hashlib.sha1(op.encode() + b"|" + b"|".join(_digest(x) for x in a)).digest()
        t._k = (cd, min(n, 10 ** 9), t._d)
        _tab[key] = t
    return t


TRUE = raw("true")
FALSE = raw("false")
BOT = raw("bot")       # value on an infeasible path: any value will do
UNIT = raw("unit")
ERR = raw("E")         # collapsed error payload


def isterm(x):
    return isinstance(x, T)


# ---------------------------------------------------------------- decision nodes
def is_bool_atom(t):
    return t.op not in ("true", "false", "ite", "bot")


def implied(atom, val, other):
    """Is `other` decided by atom==val?  returns None/True/False"""
    if other is atom:
        return val
    if atom.op == "isv" and other.op == "isv" and atom.a[0] is other.a[0]:
        if atom.a[1] == other.a[1]:
            return val
        return False if val else None
    if atom.op == "eq" and other.op == "eq" and not val:
        # a bit that is not 0 is 1
        x, y = atom.a
        cx, tx = (x, y) if x.op == "int" else (y, x)
        if cx.op == "int" and cx.a[0] in (0, 1) and oneseg(tx)[2] == 1:
            return implied(raw("eq", *sorted((tx, INT(1 - cx.a[0])), key=lambda t: t._k)), True, other)
    if atom.op == "eq" and other.op == "eq" and val:
        x, y = atom.a
        p, q = other.a
        cx, tx = (x, y) if x.op == "int" or x.op == "str" else (y, x)
        cp, tp = (p, q) if p.op == "int" or p.op == "str" else (q, p)
        if cx.op in ("int", "str") and cp.op == cx.op and tx is tp and cx is not cp:
            return False
        if cx.op == "int" and cp.op == "int":
            s1, l1, n1 = oneseg(tx)
            s2, l2, n2 = oneseg(tp)
            if s1 is s2 and cx.a[0] >= 0 and cp.a[0] >= 0:
                lo, hi = max(l1, l2), min(l1 + n1, l2 + n2)
                if lo < hi:
                    m = (1 << (hi - lo)) - 1
                    v1, v2 = (cx.a[0] >> (lo - l1)) & m, (cp.a[0] >> (lo - l2)) & m
                    if v1 != v2:
                        return False
                    if lo == l2 and hi == l2 + n2:
                        return True
    if atom.op == "eq" and val and other.op == "lt":
        x, y = atom.a
        c, t = (x, y) if x.op == "int" else (y, x)
        if c.op == "int":
            l, r = other.a
            l = c if l is t else l
            r = c if r is t else r
            if l.op == "int" and r.op == "int":
                return l.a[0] < r.a[0]
    if atom.op == "lexit" and other.op == "lexit" and val and atom.a[0] is other.a[0]:
        return False
    if atom.op == "lt" and other.op == "lt":
        # atom: x<c or c<x ; other likewise on the same x
        ai, oi = _bound(atom, val), None
        if ai:
            x, lo, hi = ai
            l, r = other.a
            if l is x and r.op == "int":
                if hi is not None and hi < r.a[0]:
                    return True
                if lo is not None and lo >= r.a[0]:
                    return False
            if r is x and l.op == "int":
                if lo is not None and lo > l.a[0]:
                    return True
                if hi is not None and hi <= l.a[0]:
                    return False
    if atom.op == "lt" and other.op == "eq":
        ai = _bound(atom, val)
        if ai:
            x, lo, hi = ai
            p, q = other.a
            c, t = (p, q) if p.op == "int" else (q, p)
            if c.op == "int" and t is x:
                if (hi is not None and c.a[0] > hi) or (lo is not None and c.a[0] < lo):
                    return False
    return None


def _bound(atom, val):
    l, r = atom.a
    if r.op == "int":
        return (l, None, r.a[0] - 1) if val else (l, r.a[0], None)
    if l.op == "int":
        return (r, l.a[0] + 1, None) if val else (r, None, l.a[0])
    return None


_restrict_memo = {}


def assume(t, atom, val):
    """simplify t under atom==val (only decides atoms at ite nodes)"""
    if t.op != "ite":
        if t is atom:
            return TRUE if val else FALSE
        if t.op in BOOLOPS:
            im = implied(atom, val, t)
            if im is not None:
                return TRUE if im else FALSE
        return t
    key = (id(t), id(atom), val)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    a, hi, lo = t.a
    im = implied(atom, val, a)
    if im is True:
        r = assume(hi, atom, val)
    elif im is False:
        r = assume(lo, atom, val)
    else:
        h2 = assume(hi, atom, val)
        l2 = assume(lo, atom, val)
        r = t if (h2 is hi and l2 is lo) else node(a, h2, l2)
    _restrict_memo[key] = r
    return r


_node_memo = {}


def node(atom, hi, lo):
    if hi is lo:
        return hi
    key = (id(atom), id(hi), id(lo))
    r = _node_memo.get(key)
    if r is None:
        r = _node(atom, hi, lo)
        _node_memo[key] = r
    return r


def _node(atom, hi, lo):
    hi = assume(hi, atom, True)
    lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    if hi is BOT:
        return lo
    if lo is BOT:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    e = eta(atom, hi, lo)
    if e is not None:
        return e
    if lo is TRUE and hi is FALSE:
        return raw("ite", atom, hi, lo)
    # truth values below this test are decision nodes of their own and must keep the order
    if (boolish(hi) or boolish(lo)) and any(
            x.op not in ("ite", "true", "false", "bot") and x._k < atom._k for x in (hi, lo)):
        return ite(atom, hi, lo)
    return raw("ite", atom, hi, lo)


def eta(atom, hi, lo):
    if atom.op == "isv":
        t, vi = atom.a[:2]
        if hi.op == "adt" and lo.op == "adt" and hi.a[0] == lo.a[0] and hi.a[1] == vi and lo.a[1] != vi:
            if _is_fields_of(hi, t) and _is_fields_of(lo, t) and hi.a[0] in TWO_VARIANT:
                return t
    return None


TWO_VARIANT = {"std::option::Option", "std::result::Result", "std::ops::ControlFlow"}


def _is_fields_of(ad, t):
    for i, f in enumerate(ad.a[3]):
        if f is ERR and ad.a[0] == "std::result::Result":
            continue
        if not (f.op == "fld" and f.a[0] is t and f.a[1] == ad.a[1] and f.a[2] == i):
            return False
    return True


BOOLOPS = {"eq", "lt", "isv", "lexit", "ldone", "true", "false"}
_boolish = {}


def boolish(t):
    """is this certainly a truth value?"""
    if t.op in BOOLOPS:
        return True
    if t.op != "ite":
        return False
    r = _boolish.get(id(t))
    if r is None:
        r = boolish(t.a[1]) or boolish(t.a[2])
        _boolish[id(t)] = r
    return r


def top(*ts):
    best = None
    for t in ts:
        if t.op == "ite":
            k = t.a[0]
            if best is None or k._k < best._k:
                best = k
    return best


def cof(t, atom, val):
    if t.op == "ite":
        if t.a[0] is atom:
            return t.a[1] if val else t.a[2]
        return assume(t, atom, val)
    if t is atom:
        return TRUE if val else FALSE
    return t


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (id(c), id(a), id(b))
    r = _ite_memo.get(key)
    if r is not None:
        return r
    work[0] += 1
    if work[0] > work[1]:
        raise Budget("case split too large")
    catom = c.a[0] if c.op == "ite" else c
    best = catom
    isb = boolish(a) or boolish(b)
    for t in (a, b):
        if t.op == "ite":
            if t.a[0]._k < best._k:
                best = t.a[0]
        elif isb and t.op not in ("true", "false", "bot") and t._k < best._k:
            best = t
    ch = c.a[1] if (c.op == "ite" and c.a[0] is best) else (TRUE if c is best else assume(c, best, True))
    cl = c.a[2] if (c.op == "ite" and c.a[0] is best) else (FALSE if c is best else assume(c, best, False))
    hi = ite(ch, cof(a, best, True), cof(b, best, True))
    lo = ite(cl, cof(a, best, False), cof(b, best, False))
    r = node(best, hi, lo)
    _ite_memo[key] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


_under_memo = {}


def under(t, care):
    """Coudert-Madre restrict: simplify t given that `care` holds."""
    if care is TRUE or t.op != "ite" and not is_cond_leaf(t, care):
        return t
    if care is FALSE:
        return BOT
    key = (id(t), id(care))
    r = _under_memo.get(key)
    if r is not None:
        return r
    work[0] += 1
    if work[0] > work[1]:
        raise Budget("case split too large")
    catom = care.a[0] if care.op == "ite" else care
    tatom = t.a[0] if t.op == "ite" else t
    if catom._k < tatom._k:
        ch, cl = cof(care, catom, True), cof(care, catom, False)
        if ch is FALSE:
            r = under(assume(t, catom, False), cl)
        elif cl is FALSE:
            r = under(assume(t, catom, True), ch)
        else:
            r = under(t, OR(ch, cl))
    else:
        ch, cl = cof(care, tatom, True), cof(care, tatom, False)
        th, tl = cof(t, tatom, True), cof(t, tatom, False)
        if ch is FALSE:
            r = under(tl, cl)
        elif cl is FALSE:
            r = under(th, ch)
        else:
            r = node(tatom, under(th, ch), under(tl, cl))
    _under_memo[key] = r
    return r


def is_cond_leaf(t, care):
    # an opaque boolean leaf that the care set mentions
    return t.op not in ("true", "false", "int", "str", "adt", "unit", "bot", "E") and t in atoms_of(care)


_atoms_memo = {}


def atoms_of(t):
    r = _atoms_memo.get(id(t))
    if r is None:
        if t.op == "ite":
            r = frozenset([t.a[0]]) | atoms_of(t.a[1]) | atoms_of(t.a[2])
        else:
            r = frozenset([t]) if t.op not in ("true", "false") else frozenset()
        _atoms_memo[id(t)] = r
    return r


def lift(f, t, memo=None):
    """apply f to every leaf of t"""
    if t.op != "ite":
        return BOT if t is BOT else f(t)
    if memo is None:
        memo = {}
    r = memo.get(id(t))
    if r is None:
        r = ite(t.a[0], lift(f, t.a[1], memo), lift(f, t.a[2], memo))
        memo[id(t)] = r
    return r


def leaves(t, seen=None):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "ite":
            st.append(x.a[2])
            st.append(x.a[1])
        else:
            out.append(x)
    return out


def paths(t, limit=20000):
    """[(list of (atom,bool)), leaf]"""
    out = []

    def go(x, pre):
        if len(out) > limit:
            raise OverflowError
        if x.op == "ite":
            go(x.a[1], pre + [(x.a[0], True)])
            go(x.a[2], pre + [(x.a[0], False)])
        else:
            out.append((pre, x))
    go(t, [])
    return out


# ---------------------------------------------------------------- constructors
def INT(v):
    return raw("int", v)


def STR(s):
    return raw("str", s)


def BOOL(b):
    return TRUE if b else FALSE


def ARR(xs):
    """an array value; one without elements is the empty sequence"""
    xs = tuple(xs)
    return raw("adt", "array", 0, None, xs) if xs else raw("vecnil")


def ADT(d, vi, v, fields):
    # struct eta:  S{fld(t,0),fld(t,1),..} == t
    if fields and d not in TWO_VARIANT:
        f0 = fields[0]
        if f0.op == "fld" and f0.a[1] == vi and f0.a[2] == 0 and f0.a[3] == (d, len(fields)):
            t = f0.a[0]
            if all(f.op == "fld" and f.a[0] is t and f.a[1] == vi and f.a[2] == i and f.a[3] == (d, len(fields))
                   for i, f in enumerate(fields)):
                return t
    return raw("adt", d, vi, v, tuple(fields))


def SOME(x):
    return raw("adt", "std::option::Option", 1, "Some", (x,))


NONE = raw("adt", "std::option::Option", 0, "None", ())


def OK(x):
    return raw("adt", "std::result::Result", 0, "Ok", (x,))


def ERRV(x):
    return raw("adt", "std::result::Result", 1, "Err", (x,))


def fld(t, vi, i, tag=None):
    """field i of variant vi (vi None for struct/tuple)"""
    def f(x):
        if x.op == "adt":
            if vi is not None and x.a[1] != vi and x.a[0] != "tuple":
                return BOT
            if i < len(x.a[3]):
                return x.a[3][i]
            return BOT
        if x.op == "upd":
            base, p, v = x.a
            if p == (vi, i):
                return v
            return fld(base, vi, i, tag)
        if x.op == "pair_ovf":   # AddWithOverflow
            return x.a[i]
        if x.op in ("mref", "entry"):       # the raw pointer inside a Box; what a map entry is about
            return x
        if x.op == "lpv":        # of the value a loop leaves with
            return raw("lpv", x.a[0], x.a[1], fld(x.a[2], vi, i, tag))
        return raw("fld", x, vi, i, tag)
    return lift(f, t)


def isv(t, vi, nvar):
    """boolean: t is variant vi"""
    def f(x):
        if x.op == "adt":
            return BOOL(x.a[1] == vi)
        if nvar == 1:
            return TRUE
        if nvar == 2:
            a = raw("isv", x, 1)
            return a if vi == 1 else NOT(a)
        return raw("isv", x, vi, nvar) if nvar < 99 else raw("isv", x, vi)
    return lift(f, t)


def variants_of(atom):
    """how many variants the type of the tested value has, if known to be more than two"""
    return atom.a[2] if atom.op == "isv" and len(atom.a) == 3 else 0


def is_some(t):
    return isv(t, 1, 2)


def is_err(t):
    return isv(t, 1, 2)


def some_val(t):
    return fld(t, 1, 0, ("std::option::Option", 1))


def ok_val(t):
    return fld(t, 0, 0, ("std::result::Result", 1))


def err_val(t):
    return fld(t, 1, 0, ("std::result::Result", 1))


def subst(t, m, memo=None):
    """replace terms (keys of m) bottom-up, rebuilding with smart constructors"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(id(t))
    if r is not None:
        return r
    if not t.a:
        return t

    def s(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        return x
    na = tuple(s(x) for x in t.a)
    if na == t.a:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[id(t)] = r
    return r


def rebuild(op, a):
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "adt":
        return ADT(*a)
    if op == "fld":
        return fld(*a)
    if op == "isv":
        x, vi = a[:2]
        return lift(lambda y: BOOL(y.a[1] == vi) if y.op == "adt" else raw("isv", y, *a[1:]), x)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "bin":
        return binop(*a)
    if op == "cast":
        return cast(*a)
    if op == "bits":
        ty, segs = a
        out = [0] * WID[ty]
        for (at, n, src, lo, sw) in segs:
            if src is None:
                for i in range(n):
                    out[at + i] = 1
            elif src.op == "int":
                for i in range(n):
                    out[at + i] = (src.a[0] >> (lo + i)) & 1
            elif src.op == "bits":
                sb = tobits(src.a[0], src)
                for i in range(n):
                    out[at + i] = sb[lo + i] if lo + i < len(sb) else 0
            elif src.op == "ite":
                return lift(lambda y: rebuild("bits", (ty, tuple((p, q, (y if r is src else r), z, zz) for p, q, r, z, zz in segs))), src)
            else:
                for i in range(n):
                    out[at + i] = (src, lo + i, sw)
        return frombits(ty, out)
    if op == "call" and a[0] == "mapget" and REBUILD_HOOK:
        return REBUILD_HOOK[0](op, a)
    if op in ("len", "idx", "setin") and REBUILD_HOOK:
        return REBUILD_HOOK[0](op, a)
    if op == "upd":
        return mkupd(a[0], a[1][0], a[1][1], None, a[2])
    if op == "mapput":
        return mapput(*a)
    if a and a[0].__class__ is T and a[0].op == "vecnil" and op in EMPTY_OF_EMPTY:
        return a[0]
    return raw(op, *a)


# what has no elements when its first argument has none
EMPTY_OF_EMPTY = {"skip", "take", "rev", "step_by", "enum", "gen", "chunks_exact", "chunks", "sub2", "sortk", "dedup"}


def mkupd(x, vi, i, tag, inner):
    """functional update of one field, with conditional updates decided outside"""
    def g(v):
        def h(y):
            if y.op == "adt" and y.a[1] == (vi or 0) and i < len(y.a[3]):
                return ADT(y.a[0], y.a[1], y.a[2], y.a[3][:i] + (v,) + y.a[3][i + 1:])
            if v is fld(y, vi, i, tag):
                return y
            return raw("upd", y, (vi, i), v)
        return lift(h, x)
    return lift(g, inner)


def mapput(m, k, v):
    """insertion into a map; an earlier entry of the same key is gone"""
    def strip(x):
        while x.op == "mapput" and x.a[1] is k:
            x = x.a[0]
        if x.op == "ite":
            y, n = strip(x.a[1]), strip(x.a[2])
            if y is not x.a[1] or n is not x.a[2]:
                return ite(x.a[0], y, n)
        return x
    s = strip(m)
    # only when that settles which map it is
    return raw("mapput", s if s.op != "ite" else m, k, v)


REBUILD_HOOK = []


def contains(t, pred, memo=None):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if pred(x):
            return True
        st.extend(x.a)
    return False


def collect(t, pred):
    out = []
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if pred(x):
            out.append(x)
        st.extend(x.a)
    return out


# ---------------------------------------------------------------- arithmetic
WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
       "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def wrap(v, ty):
    w = WID.get(ty)
    if w is None:
        return v
    v &= (1 << w) - 1
    if ty[0] == "i" and v >> (w - 1):
        v -= 1 << w
    return v


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" or b.op == "ite":
        if a.op == "ite":
            return lift(lambda x: eq(x, b), a)
        return lift(lambda x: eq(a, x), b)
    if a.op == "int" and b.op == "int":
        return BOOL(a.a[0] == b.a[0])
    if a.op == "str" and b.op == "str":
        return BOOL(a.a[0] == b.a[0])
    if a.op in ("true", "false") and b.op in ("true", "false"):
        return BOOL(a is b)
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return NOT(b)
    if b is FALSE:
        return NOT(a)
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3], b.a[3]):
            r = AND(r, eq(x, y))
        return r
    # t == Some(x)  ->  t is Some and its payload equals x
    for x, y in ((a, b), (b, a)):
        if y.op == "adt" and y.a[3] and y.a[0] in TWO_VARIANT:
            r = isv(x, y.a[1], 2)
            for i, f in enumerate(y.a[3]):
                r = AND(r, eq(fld(x, y.a[1], i, (y.a[0], 1)), f))
            return r
    # x == UnitVariant  ->  isv
    for x, y in ((a, b), (b, a)):
        if y.op == "adt" and not y.a[3] and y.a[0] in NVAR:
            return isv(x, y.a[1], NVAR[y.a[0]])
    for x, y in ((a, b), (b, a)):
        # struct/tuple constant against an opaque value: compare field-wise, so that
        # `id == X` and a field-wise comparison agree
        if y.op == "adt" and y.a[3] and NVAR.get(y.a[0], 1) == 1 and _constish(y):
            r = TRUE
            for i, f in enumerate(y.a[3]):
                r = AND(r, eq(fld(x, y.a[1] or None, i, (y.a[0], len(y.a[3]))), f))
            return r
    for x, y in ((a, b), (b, a)):
        if y.op == "int" and x.op == "bits":
            r = eqbits(x, y.a[0])
            if r is not None:
                return r
    # masks: (x & m) == m with single-bit m  <=>  not ((x & m) == 0)
    for x, y in ((a, b), (b, a)):
        if y.op == "int" and x.op == "bin" and x.a[0] == "BitAnd":
            m = x.a[2] if x.a[2].op == "int" else x.a[3]
            if m.op == "int":
                mv = m.a[0]
                if y.a[0] & ~mv:
                    return FALSE
                if mv and mv & (mv - 1) == 0 and y.a[0] == mv:
                    return NOT(eq(x, INT(0)))
    if b._k < a._k:
        a, b = b, a
    return raw("eq", a, b)


NVAR = {"std::option::Option": 2, "std::result::Result": 2, "std::ops::ControlFlow": 2, "tuple": 1,
        "std::borrow::Cow": 2, "std::path::Component": 5, "std::cmp::Ordering": 3}


def _constish(t):
    if t.op == "adt":
        return all(_constish(x) for x in t.a[3])
    return t.op in ("int", "str", "true", "false", "unit", "bytes") or t.op == "call" and len(t.a) == 1 and t.a[0] == UUID_NIL


UUID_NIL = "uuid::builder::<impl uuid::Uuid>::nil"


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "ite":
        return lift(lambda x: lt(x, b), a)
    if b.op == "ite":
        return lift(lambda x: lt(a, x), b)
    if a.op == "int" and b.op == "int":
        return BOOL(a.a[0] < b.a[0])
    if b.op == "int" and b.a[0] == 0 and is_unsigned(a):
        return FALSE
    # the sign of a reinterpreted unsigned number is its top bit
    if b.op == "int" and b.a[0] == 0 and a.op == "cast" and a.a[0][0] == "u" and a.a[1][0] == "i" \
            and WID.get(a.a[0]) and WID[a.a[0]] == WID.get(a.a[1]):
        return NOT(eq(binop("Shr", a.a[0], a.a[2], INT(WID[a.a[0]] - 1)), INT(0)))
    a, b = (narrow(a), b) if b.op == "int" else (a, narrow(b)) if a.op == "int" else (a, b)
    # canonical int comparison against constants: c < x  ==  not (x < c+1)
    if a.op == "int":
        return NOT(lt(b, INT(a.a[0] + 1)))
    # unsigned x < 1  ==  x == 0
    if b.op == "int" and b.a[0] == 1 and is_unsigned(a):
        return eq(a, INT(0))
    return raw("lt", a, b)


UNSIGNED = set()


def unsigned(t):
    """is_unsigned, or declared as an unsigned number (result of a function, field)"""
    if is_unsigned(t):
        return True
    if t.op == "call":
        return (t.a[0], False) in UNSIGNED
    if t.op == "fld":
        x, vi, i, tag = t.a
        if tag and tag[0] in TWO_VARIANT:
            return x.op == "call" and (x.a[0], True) in UNSIGNED and (tag[0], vi) in (("std::result::Result", 0), ("std::option::Option", 1))
        return bool(tag) and (tag[0], vi or 0, i) in UNSIGNED
    return False


def narrow(t):
    """a slice of bits as the smallest type that holds it (the form eqbits gives it)"""
    src, lo, n = oneseg(t)
    if src is t:
        return t
    for ty in ("u8", "u16", "u32", "u64", "u128"):
        if n <= WID[ty]:
            break
    if ty == t.a[0] or t.a[0] == "usize" and ty == "u64":
        return t
    return raw("bits", ty, t.a[1])


def is_unsigned(t):
    if t.op == "bin":
        return t.a[1] in WID and t.a[1][0] == "u"
    if t.op == "cast":
        return t.a[1] in WID and t.a[1][0] == "u"
    if t.op == "len" or t.op == "bits":
        return True
    if t.op == "call" and t.a[0].endswith("remaining"):
        return True
    return False


def binop(op, ty, a, b):
    """ty = operand type name"""
    if a is BOT or b is BOT:
        return BOT
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return NOT(eq(a, b))
    if op in ("Lt", "Gt", "Le", "Ge") and ty in WID or op in ("Lt", "Gt", "Le", "Ge") and ty in ("char", "usize"):
        f = ult if ty[0] in "uc" else lt
        if ty[0] == "u":
            # no value of the type lies above its maximum
            l, r = (a, b) if op in ("Lt", "Ge") else (b, a)
            if l.op == "int" and l.a[0] >= (1 << WID[ty]) - 1:
                return BOOL(op in ("Ge", "Le"))
        if op == "Lt":
            return f(a, b)
        if op == "Gt":
            return f(b, a)
        if op == "Le":
            return NOT(f(b, a))
        return NOT(f(a, b))
    if ty == "bool":
        if op == "BitAnd":
            return AND(a, b)
        if op == "BitOr":
            return OR(a, b)
        if op == "BitXor":
            return ite(a, NOT(b), b)
    if a.op == "ite" and b.op in ("int",):
        return lift(lambda x: binop(op, ty, x, b), a)
    if b.op == "ite" and a.op in ("int",):
        return lift(lambda x: binop(op, ty, a, x), b)
    if a.op == "ite" and a.size + b.size < 400 and b.op != "ite":
        return lift(lambda x: binop(op, ty, x, b), a)
    if b.op == "ite" and a.size + b.size < 400 and a.op != "ite":
        return lift(lambda x: binop(op, ty, a, x), b)
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    if op.endswith("WithOverflow"):
        v = binop(base, ty, a, b)
        o = raw("ovf", base, ty, a, b)
        if a.op == "int" and b.op == "int" and ty in WID:
            x, y = a.a[0], b.a[0]
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y}[base]
            o = BOOL(wrap(r, ty) != r)
        elif base == "Add" and b.op == "int" and b.a[0] == 0:
            o = FALSE
        return raw("pair_ovf", v, o)
    if a.op == "int" and b.op == "int" and ty in WID:
        x, y = a.a[0], b.a[0]
        try:
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << (y % WID[ty]),
                 "Shr": lambda: (x & ((1 << WID[ty]) - 1) if ty[0] == "u" else x) >> (y % WID[ty]),
                 "Div": lambda: tdiv(x, y), "Rem": lambda: x - y * tdiv(x, y)}[base]()
            return INT(wrap(r, ty))
        except Exception:
            pass
    if b.op == "int" and b.a[0] == 0 and base in ("Add", "Sub", "Shl", "Shr", "BitOr", "BitXor"):
        return a
    if base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor", "Add"):
        r = bitop(base, ty, a, b)
        if r is not None:
            return r
    if a.op == "int" and a.a[0] == 0 and base in ("Add", "BitOr", "BitXor"):
        return b
    if b.op == "int" and b.a[0] == 1 and base in ("Mul", "Div"):
        return a
    if base in ("Div", "Rem") and b.op == "int" and ty in WID and ty[0] == "u" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
        x = tobits(ty, a)
        if x is not None:
            k = b.a[0].bit_length() - 1
            return frombits(ty, x[k:] if base == "Div" else x[:k])
    if base == "Mul" and a.op == "int" and b.op != "int":
        a, b = b, a
    if base == "Mul" and b.op == "int" and ty in WID:
        if b.a[0] == 0:
            return INT(0)
        if ty[0] == "u" and a.op == "bits" and b.a[0] & (b.a[0] - 1) == 0:
            return bitop("Shl", ty, a, INT(b.a[0].bit_length() - 1))
    if base in ("Add", "Sub") and ty in WID:
        r = linear(base, ty, a, b)
        if r is not None:
            return r
    if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
        if b._k < a._k:
            a, b = b, a
        # reassociate constants for unsigned/signed add of constants: (x + c1) + c2
        if base == "Add":
            for p, q in ((a, b), (b, a)):
                if p.op == "int" and q.op == "bin" and q.a[0] == "Add" and q.a[1] == ty:
                    for u, v in ((q.a[2], q.a[3]), (q.a[3], q.a[2])):
                        if u.op == "int":
                            return binop("Add", ty, v, INT(u.a[0] + p.a[0]))
    return raw("bin", base, ty, a, b)


def addends(ty, t, f, out, depth=0):
    """t as a sum of multiples of opaque values, added f times to out"""
    if t.op == "int":
        out[None] = out.get(None, 0) + f * t.a[0]
        return
    if depth < 60 and t.op == "bin" and t.a[1] == ty:
        op, _, x, y = t.a
        if op in ("Add", "Sub"):
            addends(ty, x, f, out, depth + 1)
            addends(ty, y, f if op == "Add" else -f, out, depth + 1)
            return
        if op == "Mul":
            for p, q in ((x, y), (y, x)):
                if p.op == "int":
                    addends(ty, q, f * p.a[0], out, depth + 1)
                    return
    out[t] = out.get(t, 0) + f


def linear(op, ty, a, b):
    """canonical form of sums and differences (arithmetic is modulo the type's width; what
    overflows is an obligation of its own)"""
    m = {}
    addends(ty, a, 1, m)
    addends(ty, b, 1 if op == "Add" else -1, m)
    c = wrap(m.pop(None, 0), "i" + ty[1:])
    pos, neg = [], []
    for t in sorted(m, key=lambda t: t._k):
        f = wrap(m[t], "i" + ty[1:])
        if f:
            g = abs(f)
            if g == 1:
                x = t
            else:
                p, q = sorted((t, INT(g)), key=lambda t: t._k)
                x = raw("bin", "Mul", ty, p, q)
            (pos if f > 0 else neg).append(x)
    if c > 0:
        pos.append(INT(c))
    elif c < 0:
        neg.append(INT(-c))

    def total(l):
        r = l[0]
        for x in l[1:]:
            p, q = sorted((r, x), key=lambda t: t._k)
            r = raw("bin", "Add", ty, p, q)
        return r
    if not neg:
        return total(pos) if pos else INT(0)
    return raw("bin", "Sub", ty, total(pos) if pos else INT(0), total(neg))


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def ult(a, b):
    """a < b for unsigned operands"""
    if b.op == "int" and b.a[0] == 0:
        return FALSE
    if b.op == "int" and b.a[0] == 1:
        return eq(a, INT(0))
    if a.op == "int" and a.a[0] == 0:
        return NOT(eq(b, INT(0)))
    return lt(a, b)


def cast(frm, to, a):
    if frm == to:
        return a
    if a.op == "ite":
        return lift(lambda x: cast(frm, to, x), a)
    if a.op == "int" and to in WID:
        return INT(wrap(a.a[0], to))
    if a.op == "true" and to in WID:
        return INT(1)
    if a.op == "false" and to in WID:
        return INT(0)
    if frm in WID and to in WID and frm[0] == "u" and to[0] == "u":
        b = tobits(frm, a)
        if b is not None:
            return frombits(to, b)
    if a.op == "cast" and to in WID and frm in WID:
        f0, t0, x = a.a
        # widening then anything: collapse when inner is widening-unsigned
        if f0 in WID and f0[0] == "u" and WID[t0] > WID[f0]:
            return cast(f0, to, x)
    return raw("cast", frm, to, a)


# ---------------------------------------------------------------- bit provenance
def tobits(ty, t):
    """LSB-first list of 0 / 1 / (src, i) for an unsigned value of type ty, or None"""
    w = WID.get(ty)
    if w is None or ty[0] != "u":
        return None
    if t.op == "int":
        return [(t.a[0] >> i) & 1 for i in range(w)]
    if t.op == "bits" and t.a[0] == ty:
        out = [0] * w
        for (at, n, src, lo, sw) in t.a[1]:
            for i in range(n):
                out[at + i] = 1 if src is None else (src, lo + i, sw)
        return out
    if t.op in ("ite", "bot"):
        return None
    if t.op == "bin" and t.a[0] == "Mul" and t.a[1] == ty:
        for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
            if x.op == "int" and x.a[0] > 0 and x.a[0] & (x.a[0] - 1) == 0:
                b = tobits(ty, y)
                if b is not None:
                    return ([0] * (x.a[0].bit_length() - 1) + b)[:w]
    return [(t, i, w) for i in range(w)]


def frombits(ty, b, orig=None):
    w = WID[ty]
    b = b[:w] + [0] * (w - len(b))
    if all(x in (0, 1) for x in b if not isinstance(x, tuple)) and not any(isinstance(x, tuple) for x in b):
        return INT(sum(x << i for i, x in enumerate(b)))
    segs = []
    i = 0
    while i < w:
        x = b[i]
        if x == 0:
            i += 1
            continue
        n = 1
        if x == 1:
            while i + n < w and b[i + n] == 1:
                n += 1
            segs.append((i, n, None, 0, 0))
        else:
            while i + n < w and isinstance(b[i + n], tuple) and b[i + n][0] is x[0] and b[i + n][1] == x[1] + n:
                n += 1
            segs.append((i, n, x[0], x[1], x[2]))
        i += n
    if len(segs) == 1 and segs[0][0] == 0 and segs[0][3] == 0 and segs[0][1] == w and segs[0][4] == w and segs[0][2] is not None:
        return segs[0][2]
    if len(segs) == 1 and segs[0][2] is not None and segs[0][3] == 0 and segs[0][4] == w and segs[0][0] + segs[0][1] == w:
        p, q = sorted((segs[0][2], INT(1 << segs[0][0])), key=lambda t: t._k)
        return raw("bin", "Mul", ty, p, q)
    return raw("bits", ty, tuple(segs))


def bitop(op, ty, a, b):
    if ty not in WID or ty[0] != "u":
        return None
    if op in ("Shl", "Shr"):
        if b.op != "int":
            return None
        x = tobits(ty, a)
        if x is None:
            return None
        n = b.a[0]
        if not 0 <= n < WID[ty]:
            return None
        if op == "Shl":
            return frombits(ty, [0] * n + x)
        return frombits(ty, x[n:])
    if op == "BitAnd" and (a.op == "int" or b.op == "int"):
        x, y = tobits(ty, a), tobits(ty, b)
        if x is None or y is None:
            return None
        return frombits(ty, [q if p == 1 else p if q == 1 else 0 for p, q in zip(x, y)])
    if op in ("BitOr", "BitXor", "Add"):
        x, y = tobits(ty, a), tobits(ty, b)
        if x is None or y is None:
            return None
        if op == "Add" and not (a.op == "bits" or b.op == "bits"):
            return None
        if all(p == 0 or q == 0 for p, q in zip(x, y)):
            return frombits(ty, [p if q == 0 else q for p, q in zip(x, y)])
        if op == "BitOr" and all(p == 0 or q == 0 or p == q or p == 1 or q == 1 for p, q in zip(x, y)):
            return frombits(ty, [1 if (p == 1 or q == 1) else p if q == 0 else q for p, q in zip(x, y)])
    return None


def eqbits(t, c):
    """bits == constant, reduced to the bits that matter"""
    ty = t.a[0]
    b = tobits(ty, t)
    if c >> WID[ty]:
        return FALSE
    keep = []
    val = 0
    for i, x in enumerate(b):
        ci = (c >> i) & 1
        if not isinstance(x, tuple):
            if x != ci:
                return FALSE
            continue
        val |= ci << len(keep)
        keep.append(x)
    if not keep:
        return TRUE
    n = len(keep)
    if 1 < n <= 3:
        # a few bits: one test each, so that tests of overlapping masks agree
        r = TRUE
        for i, x in enumerate(keep):
            r = AND(r, eqbits(frombits("u8", [x]), (val >> i) & 1))
        return r
    for nty in ("u8", "u16", "u32", "u64", "u128"):
        if n <= WID[nty]:
            break
    k = frombits(nty, list(keep))
    if k.op != "bits":
        return eq(k, INT(val))
    if n == 1 and val == 1:
        return NOT(raw("eq", *sorted((k, INT(0)), key=lambda t: t._k)))
    return raw("eq", *sorted((k, INT(val)), key=lambda t: t._k))


def oneseg(t):
    """(src, lo, len) when t is a slice of one source"""
    if t.op == "bits" and len(t.a[1]) == 1 and t.a[1][0][0] == 0 and t.a[1][0][2] is not None:
        at, n, src, lo, _w = t.a[1][0]
        return src, lo, n
    return t, 0, 128


# ---------------------------------------------------------------- printing
def short(p):
    return p.replace("crate::", "").split("::")[-1] if "<" not in p else p.replace("crate::", "")


def show(t, d=0, lim=8):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d, lim) for x in t) + ")"
        return str(t)
    if d > lim:
        return ".."
    s = lambda x: show(x, d + 1, lim)
    o, a = t.op, t.a
    if o in ("int", "str"):
        return repr(a[0])
    if o == "sym":
        return str(a[0])
    if o == "ite":
        return "{%s ? %s : %s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "adt":
        nm = a[0].split("::")[-1]
        return "%s%s(%s)" % (nm if a[0] != "tuple" else "", "::" + a[2] if a[2] and a[2] != nm else "", ", ".join(s(x) for x in a[3]))
    if o == "fld":
        return "%s.%s%s" % (s(a[0]), "" if a[1] is None else "%s:" % a[1], a[2])
    if o == "isv":
        return "is%s(%s)" % (a[1], s(a[0]))
    if o == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(s(x) for x in a[1:]))
    if o == "bin":
        return "(%s %s %s)" % (s(a[2]), a[0], s(a[3]))
    if o == "cast":
        return "(%s as %s)" % (s(a[2]), a[1])
    if not a:
        return o
    return "%s[%s]" % (o, ", ".join(s(x) for x in a))


def sname(p):
    p = p.replace("crate::", "")
    p = re.sub(r"<'[a-z_]+>(::)?", "", p) if "reader::Reader" in p else p
    p = re.sub(r"::<'[a-z_]+(, '[a-z_]+)*>", "", p)
    return p


class Pretty(object):
    """deterministic multi-line rendering; shared sub-terms are named in order of appearance"""

    def __init__(self, limit=4000, names=None):
        self.names = {}
        self.defs = []
        self.cnt = {}
        self.limit = limit
        self.alias = names or {}

    def count(self, t):
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, T):
                continue
            self.cnt[id(x)] = self.cnt.get(id(x), 0) + 1
            if self.cnt[id(x)] == 1:
                st.extend(x.a)

    def ref(self, t):
        """inline text of t, naming shared or big parts"""
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return "(" + ", ".join(self.ref(x) for x in t) + ")"
            return sname(t) if isinstance(t, str) else str(t)
        if t in self.alias:
            return self.alias[t]
        n = self.names.get(t)
        if n:
            return n
        o = t.op
        if o == "call" or (self.cnt.get(id(t), 0) > 1 and t.size > 6 and o not in ("fld", "out", "isv")) or \
                o in ("ite", "lp") or t.size > 60 and o not in ("fld", "out", "isv", "lpv", "adt"):
            body = self.tree(t, "  ") if o == "ite" else self.inline(t)
            n = "$%d" % (len(self.defs) + 1)
            self.names[t] = n
            self.defs.append("%s = %s" % (n, body))
            if len(self.defs) > self.limit:
                raise OverflowError("term too large")
            return n
        return self.inline(t)

    def inline(self, t):
        o, a = t.op, t.a
        s = self.ref
        if o in ("int", "str"):
            return repr(a[0])
        if o == "sym":
            return str(a[0])
        if o == "adt":
            nm = a[0].split("::")[-1] if a[0] != "tuple" else ""
            if nm == "Data":
                nm = a[0].split("::")[-2] + "::Data"
            if nm == "array":
                return "[" + ", ".join(s(x) for x in a[3]) + "]"
            v = "::" + a[2] if a[2] and a[2] != a[0].split("::")[-1] else ""
            fn = FIELDS.get((a[0], a[1]))
            if fn and len(fn) == len(a[3]) and not fn[0].isdigit():
                return "%s%s{%s}" % (nm, v, ", ".join("%s: %s" % (k, s(x)) for k, x in zip(fn, a[3])))
            if nm in ("Option", "Result"):
                v, nm = a[2], ""
            return "%s%s%s" % (nm, v, "(" + ", ".join(s(x) for x in a[3]) + ")" if a[3] or not v else "")
        if o == "fld":
            tag = a[3]
            if tag and tag[0] == "std::option::Option":
                return s(a[0]) + ".some"
            if tag and tag[0] == "std::result::Result":
                return s(a[0]) + (".ok" if a[1] == 0 else ".err")
            fn = FIELDS.get((tag[0], a[1] or 0)) if tag else None
            if fn and a[2] < len(fn):
                return "%s.%s" % (s(a[0]), fn[a[2]])
            return "%s.%s%s" % (s(a[0]), "" if a[1] in (None, 0) else "%s:" % a[1], a[2])
        if o == "isv":
            return "is%s(%s)" % (a[1], s(a[0]))
        if o == "out":
            return "%s'%s" % (s(a[0]), a[1] or "")
        if o == "call":
            return "%s(%s)" % (sname(a[0]), ", ".join(s(x) for x in a[1:]))
        if o == "bits":
            ps = []
            for (at, n, src, lo, sw) in a[1]:
                if src is None:
                    ps.append("ones(%d)<<%d" % (n, at))
                else:
                    ps.append("%s[%d:%d]%s" % (s(src), lo, lo + n, "<<%d" % at if at else ""))
            return "%s{%s}" % (a[0], "|".join(ps))
        if o == "bin":
            op = {"BitAnd": "&", "BitOr": "|", "BitXor": "^", "Shl": "<<", "Shr": ">>", "Add": "+", "Sub": "-",
                  "Mul": "*", "Div": "/", "Rem": "%"}.get(a[0], a[0])
            return "(%s %s.%s %s)" % (s(a[2]), op, a[1], s(a[3]))
        if o == "cast":
            return "(%s as %s)" % (s(a[2]), a[1])
        if o == "eq":
            return "(%s == %s)" % (s(a[1]), s(a[0])) if a[0].op in ("int", "str") else "(%s == %s)" % (s(a[0]), s(a[1]))
        if o == "lt":
            return "(%s < %s)" % (s(a[0]), s(a[1]))
        if o == "ite":
            return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
        if o == "fn" or o == "clo":
            return "%s" % sname(a[0])
        if not a:
            return o
        return "%s[%s]" % (o, ", ".join(s(x) for x in a))

    def tree(self, t, ind):
        """decision tree as indented if / else"""
        if t in self.names:
            return self.names[t]
        if t.op != "ite":
            return self.ref(t) if t.op != "adt" else self.inline(t)
        a, hi, lo = t.a
        # print the smaller branch first
        c = self.ref(a)
        neg = False
        if hi.size > lo.size or (hi.size == lo.size and hi._d > lo._d):
            hi, lo, neg = lo, hi, True
        return "if %s%s: %s\n%selse %s" % ("!" if neg else "", c, self.tree(hi, ind + "  ") if hi.op != "ite" else "\n" + ind + "  " + self.tree(hi, ind + "  "), ind, self.tree(lo, ind))

    def render(self, t):
        self.count(t)
        r = self.tree(t, "")
        return "\n".join(self.defs + ["=> " + r])


FIELDS = {}


def pretty(t, names=None):
    return Pretty(names=names).render(t)


def reset():
    for m in (_restrict_memo, _node_memo, _ite_memo, _under_memo, _atoms_memo):
        m.clear()
