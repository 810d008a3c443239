"""Unit summaries and their comparison with the reviewed specification.

A *unit* is a function of the reviewed tree (closures, derived impls and functions that
appeared later are not units: they are analysed as part of the functions that call them).
The summary of a unit is its canonical gated value: returned value plus the final value of
everything it can modify, in terms of its parameters and of the calls to other units."""
import gzip, hashlib, json, os, re, sys, time
from terms import *
import terms
from prog import Prog
from models import Eng
from engine import Unsupported
from equiv import equal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(VERIF, "spec")


def is_unit_body(b):
    return b.j["kind"] != "Closure" and not b.j.get("derive")


def unit_ids(P):
    return [k for k, b in P.bodies.items() if is_unit_body(b)]


def load_reference():
    """a fresh copy of the reference program's dump"""
    with gzip.open(os.path.join(SPECDIR, "reference.json.gz"), "rt") as f:
        return json.load(f)


# how much case splitting an analysis may do before it is given up (the largest function of
# the pinned tree needs 62,000 steps), and how long a run looks for absolving expansions
UNIT_WORK = 600000
EXPAND_WORK = 150000
EXPAND_SECONDS = 300


class Summary(tuple):
    """(result, ((parameter, final value), ...)); fallible: only final values of successful
    calls are meant"""
    fallible = False


class Side(object):
    def __init__(self, P, base):
        self.P = P
        self.base = base               # ids treated as units
        self.cache = {}
        self.fail = {}
        self._callers = None

    def summary(self, u, expand=frozenset(), collapse=True):
        """(ret, ((param, final), ...)) as terms, or None + self.fail[u]"""
        key = (u, expand if expand else None, collapse)
        if key in self.cache:
            return self.cache[key]
        b = self.P.bodies.get(u)
        if b is None:
            self.fail[u] = "no such function"
            self.cache[key] = None
            return None
        base = self.base
        bodies = self.P.bodies
        t0 = time.time()
        opq = lambda p: p in base and p not in expand and p in bodies
        e = Eng(self.P, opaque_pred=opq, collapse_err=collapse)
        old = terms.limit(UNIT_WORK if not expand else EXPAND_WORK)
        try:
            r, s = e.analyse(u)
        except (Unsupported, RecursionError, OverflowError, MemoryError) as ex:
            self.fail[u] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
            self.cache[key] = None
            return None
        finally:
            terms.work[1] = old
        r = e.settle(r, s)
        bad = e.notes
        if bad:
            self.fail[u] = "unmodelled store: %s" % (bad[0],)
            self.cache[key] = None
            return None
        isres = b.lty(0).get("def") == "std::result::Result"
        outs = []
        for c, v in sorted(s.env.items(), key=str):
            if c[0] == "H" and re.match(r"p\d+$", str(c[1])):
                if isres and collapse:
                    v = under(v, NOT(is_err(r)))
                outs.append((c[1], v))
        out = Summary((r, tuple(outs)))
        out.fallible = bool(isres and collapse)
        if any(collect(t, lambda x: x.op == "clo") for t in [r] + [v for _, v in outs]):
            self.fail[u] = "a closure leaves the function"
            self.cache[key] = None
            return None
        self.cache[key] = out
        self.last = e
        return out

    def callers(self):
        if self._callers is None:
            m = {}
            for k, b in self.P.bodies.items():
                for c in b.callees():
                    m.setdefault(c, set()).add(k)
            self._callers = m
        return self._callers

    def unit_callers(self, u, through):
        """units (not in `through`) that reach u via non-unit bodies or units in `through`"""
        out, seen, st = set(), {u}, [u]
        while st:
            x = st.pop()
            cs = set(self.callers().get(x, ()))
            b = self.P.bodies.get(x)
            if b is not None and b.j["kind"] == "Closure" and b.j.get("parent"):
                cs.add(b.j["parent"])
            for c in cs:
                if c in seen:
                    continue
                seen.add(c)
                if c in self.base and c not in through:
                    out.add(c)
                else:
                    st.append(c)
        return out


def mentions(s, X):
    """does the summary still refer to one of the functions X (by call or as a value)?"""
    r, outs = s
    return any(collect(t, lambda x: x.op in ("fn", "call") and x.a[0] in X) for t in [r] + [v for _, v in outs])


def render(s):
    r, outs = s
    txt = pretty(r)
    for p, v in outs:
        txt += "\nstate %s: %s" % (p, pretty(v))
    return txt


# ------------------------------------------------------------------ spec text files
def spec_files():
    d = os.path.join(SPECDIR, "units")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".spec"))


def read_spec():
    out = {}
    for f in spec_files():
        cur, buf = None, []
        for line in open(f):
            if line.startswith("## "):
                if cur:
                    out[cur] = "".join(buf).rstrip("\n")
                cur, buf = line[3:].rstrip("\n"), []
            elif line.startswith("# ") or line == "#\n":
                continue
            elif cur:
                buf.append(line)
        if cur:
            out[cur] = "".join(buf).rstrip("\n")
    return out


def difftext(a, b, n=14):
    import difflib
    out = []
    for l in difflib.unified_diff(a.splitlines(), b.splitlines(), "reviewed", "current", lineterm="", n=0):
        if l.startswith(("---", "+++", "@@")):
            continue
        out.append(l[:400])
    return out[:n]


class Comparison(object):
    """current program against the specification"""

    def __init__(self, P, spec, log=None):
        self.spec = spec
        self.base = set(spec)
        self.cur = Side(P, self.base)
        self._ref = None
        self.log = log
        self.absolved = {}
        self.direct = {}
        self._local = {}
        self.fails = {}
        self.X = frozenset()
        self.analysed = 0
        self.t0 = time.time()

    @property
    def ref(self):
        if self._ref is None:
            R = Prog(load_reference())
            self._ref = Side(R, self.base)
        return self._ref

    def matches(self, u):
        """direct comparison of one unit"""
        self.analysed += 1
        if u not in self.direct:
            s, r = self.cur.summary(u), self.ref.summary(u)
            # the reviewed text is what the reference computes; terms are compared, not their text
            self.direct[u] = s is not None and r is not None and render(r) == self.spec[u] and self.alike(s, r)
        return self.direct[u]

    def local(self, u):
        """comparison of one unit with callees expanded on both sides"""
        if u not in self._local:
            self._local[u] = u in self.cur.P.bodies and u in self.ref.P.bodies and self.cur.summary(u) is not None and \
                self.signature(self.cur, u) == self.signature(self.ref, u) and self.same(u, frozenset())
            if self._local[u]:
                self.absolved[u] = [u]
        return self._local[u]

    @staticmethod
    def alike(a, b):
        if b is None or not equal(a[0], b[0]) or len(a[1]) != len(b[1]):
            return False
        both = getattr(a, "fallible", False) and getattr(b, "fallible", False)

        def final(x, y):
            if equal(x, y):
                return True
            # what a failing call leaves behind does not matter (and was chosen freely above)
            return both and equal(ite(is_err(a[0]), UNIT, x), ite(is_err(b[0]), UNIT, y))
        return all(p[0] == q[0] and final(p[1], q[1]) for p, q in zip(a[1], b[1]))

    def check(self, units):
        """-> list of (unit, reason, [diff lines]) for the units that provably/possibly differ"""
        bad = [u for u in units if not self.matches(u)]
        if not bad:
            return []
        # a mismatch may be a behaviour-preserving move of code between functions: compare
        # again with callees expanded, then with the moved functions expanded in their callers
        allbad = set(u for u in self.base if not self.matches(u) and not self.local(u))
        bad = [u for u in bad if u in allbad]
        X = set(u for u in allbad if not self.exported(u))
        self.X = X = self.movable(X)
        res = {}

        def root_ok(r):
            if r in res:
                return res[r]
            res[r] = self.same(r, frozenset(X))
            return res[r]
        out = []
        for u in bad:
            if u in X:
                roots = self.cur.unit_callers(u, X) | self.ref.unit_callers(u, X)
                fails = sorted(r for r in roots if not root_ok(r))
                if not fails:
                    self.absolved[u] = sorted(roots)
                    continue
                self.fails[u] = fails
                out.append(self.report(u, fails))
            else:
                if u in self.cur.P.bodies and root_ok(u):
                    self.absolved[u] = [u]
                    continue
                out.append(self.report(u, []))
        return out

    def exported(self, u):
        for s in (self.cur, self.ref):
            b = s.P.bodies.get(u)
            if b is not None and (b.j.get("exported") or b.j.get("impl_trait")):
                return True
        return False

    def movable(self, X):
        """the members of X to expand in their callers: no cycle among them.  Of a cycle, the
        functions with a changed signature are expanded rather than the others."""
        X = set(X)
        rec = self.recursive(X)
        X -= set(u for u in rec if self.signature(self.cur, u) == self.signature(self.ref, u))
        return frozenset(X - self.recursive(X))

    @staticmethod
    def signature(side, u):
        b = side.P.bodies.get(u)
        return b and [b.lty(i)["s"] for i in range(b.argc + 1)]

    def recursive(self, X):
        """members of X on a call cycle inside X"""
        out = set()
        for side in (self.cur, self.ref):
            for u in X:
                seen, st = set(), [u]
                while st:
                    x = st.pop()
                    b = side.P.bodies.get(x)
                    if b is None:
                        continue
                    for c in b.callees():
                        if c == u:
                            out.add(u)
                            st = []
                            break
                        if c in seen or (c in self.base and c not in X):
                            continue
                        seen.add(c)
                        st.append(c)
        return out

    def same(self, r, X):
        """do both programs compute the same values for r?  Tried with the mismatching units
        expanded, then with more and more of the private callees expanded as well."""
        tried = set()
        for Y in self.expansions(r, X):
            if Y in tried:
                continue
            if time.time() - self.t0 > EXPAND_SECONDS:
                return False
            tried.add(Y)
            a = self.cur.summary(r, Y)
            b = self.ref.summary(r, Y)
            if a is not None and self.alike(a, b) and not mentions(a, X) and not mentions(b, X):
                return True
        return False

    def expansions(self, r, X, levels=((160, 4), (450, 4), (1500, 1), (1500, 1))):
        """sets of functions to expand in r: X, then also small callees (transitively), then
        one and two levels of larger ones"""
        yield X
        # functions only one of the two programs uses here
        a, b = (self.unit_callees(side, r) for side in (self.cur, self.ref))
        odd = (a ^ b) - {r}
        yield frozenset(X | (odd - self.recursive(odd | X)))
        Y = set(X)
        for size, steps in levels:
            for _ in range(steps):
                new = self.callees(r, Y, size)
                if new <= Y:
                    break
                Y |= new
            yield frozenset(Y)

    def unit_callees(self, side, r):
        """the units r calls, directly or through code that is no unit"""
        todo, seen, out = [r], set(), set()
        while todo:
            x = todo.pop()
            for c in side.P.bodies[x].callees() if x in side.P.bodies else ():
                if c not in seen:
                    seen.add(c)
                    if c in self.base:
                        out.add(c)
                    else:
                        todo.append(c)
        return out

    def callees(self, r, Y, size):
        """units with a specification of less than `size` characters that r, with Y expanded, calls"""
        new = set()
        for side in (self.cur, self.ref):
            for u in [r] + sorted(Y):
                if u not in side.P.bodies:
                    continue
                todo, seen = [u], set()
                while todo:
                    x = todo.pop()
                    for c in side.P.bodies[x].callees() if x in side.P.bodies else ():
                        if c in seen:
                            continue
                        seen.add(c)
                        if c in self.base:
                            if len(self.spec.get(c, "")) < size and c != r:
                                new.add(c)
                        else:
                            todo.append(c)
        return new - self.recursive(new | Y)

    def report(self, u, fails):
        b = self.cur.P.bodies.get(u)
        where = b.j["sp"].rsplit(":", 1)[0] if b else "(function gone)"
        if b is None:
            return (u, where, "function is gone and its callers %s do not compute the same values" % ", ".join(
                short(f) for f in fails), self.rootdiff(fails))
        s = self.cur.summary(u)
        if s is None:
            return (u, where, "not analysable: " + str(self.cur.fail.get(u)), [])
        return (u, where, "computes something else than specified", difftext(self.spec[u], render(s)))

    def rootdiff(self, fails):
        for f in fails:
            s = self.cur.summary(f)
            if s is not None and f in self.spec:
                return difftext(self.spec[f], render(s))
        return []


def short(u):
    return u.replace("crate::", "")


def generate(P, ref_units=None):
    """spec text per unit of program P"""
    base = set(unit_ids(P))
    side = Side(P, base)
    out = {}
    for u in sorted(base):
        s = side.summary(u)
        if s is None:
            raise Unsupported("%s: %s" % (u, side.fail[u]))
        out[u] = (P.bodies[u].j["sp"].split(":")[0], render(s))
    return out


def write_spec(gen, annotations=None):
    d = os.path.join(SPECDIR, "units")
    os.makedirs(d, exist_ok=True)
    old = {}
    for f in spec_files():
        cur = None
        for line in open(f):
            if line.startswith("## "):
                cur = line[3:].strip()
            elif line.startswith("# ") and cur:
                old.setdefault(cur, []).append(line)
        os.remove(f)
    byfile = {}
    for u, (f, t) in gen.items():
        byfile.setdefault(f.replace("src/", "").replace("/", "_").replace(".rs", ""), []).append((u, t))
    for f, us in byfile.items():
        with open(os.path.join(d, f + ".spec"), "w") as h:
            for u, t in sorted(us):
                h.write("## " + u + "\n")
                for l in old.get(u, []):
                    h.write(l)
                h.write(t + "\n\n")


if __name__ == "__main__":
    if sys.argv[1] == "regen":
        from extract import extract
        p = extract()["onenote_parser"]
        os.makedirs(os.path.join(SPECDIR, "units"), exist_ok=True)
        with gzip.GzipFile(os.path.join(SPECDIR, "reference.json.gz"), "wb", mtime=0) as f:
            f.write(json.dumps(p, sort_keys=True).encode())
        g = generate(Prog(p))
        write_spec(g)
        PP = Prog(p)
        json.dump({u: [PP.bodies[u].j["sp"].split(":")[0], PP.bodies[u].j["name"]] for u in sorted(g)},
                  open(os.path.join(SPECDIR, "index.json"), "w"), indent=0)
        print(len(g), "units")
