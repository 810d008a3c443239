"""P25, P27, P28: what the crate does besides computing."""
import re
from terms import *

# ------------------------------------------------------------------ references to external code
def refs(b):
    """external and local functions a body calls or mentions: (path, declared path, span, callee)"""
    out = []
    st = [(b.blocks, None)] + [((x["body"] if "body" in x else x), None) for x in b.j.get("promoted", [])]
    while st:
        x, sp = st.pop()
        if isinstance(x, dict):
            sp = x.get("fsp") or x.get("sp") or sp
            f = x.get("fn")
            if isinstance(f, dict) and "path" in f:
                out.append((f["path"], f.get("decl") or f["path"], sp, f))
            st.extend((v, sp) for v in x.values())
        elif isinstance(x, list):
            st.extend((v, sp) for v in x)
    return out


# external crates whose code used here only computes
PURE_CRATES = ("core", "alloc", "std", "bytes", "num_traits", "uuid", "widestring", "thiserror", "itertools", "encoding_rs",
               "sanitise_file_name", "cfg_if", "memchr")
READS_FILES = re.compile(r"std::fs::(File::(open|metadata)|Metadata::|DirEntry::|ReadDir|FileType::|read$|read_to_string$|read_dir$|metadata$|"
                         r"symlink_metadata$|canonicalize$|read_link$|exists$|OpenOptions::(new|read|open)$)|"
                         r"std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_link|read_dir)$|"
                         r"^<std::fs::(ReadDir|Metadata|DirEntry)( |>|<)|^<(&|&mut )?std::fs::File as std::io::(Read|Seek)>")
FORBIDDEN = [
    (re.compile(r"std::fs::|std::io::(Write|copy)\b.*std::fs|<(&|&mut )?std::fs::File as std::io::Write>"), "changes files"),
    (re.compile(r"std::process::"), "starts or ends processes"),
    (re.compile(r"std::thread::|std::sync::mpsc|std::thread_local"), "uses threads"),
    (re.compile(r"std::net::|std::os::"), "uses the network or the operating system"),
    (re.compile(r"std::env::"), "uses the environment"),
    (re.compile(r"std::time::(SystemTime|Instant)|Instant::now|SystemTime::now"), "reads the clock"),
    (re.compile(r"std::io::(_print|_eprint|stdin|stdout|stderr|Stdin|Stdout|Stderr)|<std::io::(Std|&std::io::Std)"), "uses the standard streams"),
    (re.compile(r"std::panic::(set_hook|take_hook|update_hook|catch_unwind|resume_unwind)"), "changes panic handling"),
    (re.compile(r"std::(alloc|arch|intrinsics)::|core::(arch|intrinsics)::"), "bypasses the language"),
    (re.compile(r"RandomState::new$|::random$|getrandom"), "uses randomness"),
]
WRITES = re.compile(r"std::io::Write::|as std::io::Write>::")
SINKS = re.compile(r"^&?(mut )?(std::io::Cursor|std::vec::Vec|std::string::String|std::fmt::)")
ENTRY = ("crate::onenote::Parser::parse_notebook", "crate::onenote::Parser::parse_section")


def unsafe_call(e, b, path):
    return e is not None and e["unsafe"] and not b.j.get("derive") and not path.startswith("std::fmt::")


def unsafe_items(P, dump):
    from rules import here
    viol = []
    for u in dump["unsafes"]:
        viol.append(("crate", u["sp"], u["what"], []))
    for k, b in sorted(P.bodies.items()):
        if b.j.get("unsafe"):
            viol.append((k, here(P, k), "unsafe function", []))
    for i in dump["impls"]:
        if i.get("unsafe") and not i.get("derive"):
            viol.append((i.get("trait_s", "impl"), i["sp"], "unsafe implementation", []))
    for c in dump["consts"]:
        if c.get("static_mut"):
            viol.append((c["id"], c["sp"], "static mut", []))
    return viol


# ------------------------------------------------------------------ P37
def memory_safe(ctx):
    """nothing in the crate is exempt from the compiler's memory-safety rules"""
    from rules import here
    P, dump = ctx.P, ctx.dump["onenote_parser"]
    ext = dump["ext"]
    viol, n = unsafe_items(P, dump), 0
    for k, b in sorted(P.bodies.items()):
        for path, decl, sp, f in refs(b):
            if path in P.bodies:
                continue
            n += 1
            e = ext.get(path) or ext.get(decl)
            if unsafe_call(e, b, path):
                viol.append((k, sp or here(P, k), "calls the unsafe function %s" % path, []))
            elif e is not None and e["crate"] not in PURE_CRATES:
                viol.append((k, sp or here(P, k), "calls %s of crate %s, whose safety has not been reviewed" % (path, e["crate"]), []))
    nt = sum(1 for i in dump["impls"])
    cov = {"bodies": len(P.bodies), "external_references": n, "implementations": nt, "unsafe_blocks": len(dump["unsafes"])}
    return dedup(viol), cov, ("%d bodies, %d implementations and %d references to external functions: no unsafe block, function, "
                              "implementation, foreign item, mutable static or call of an unsafe function" % (len(P.bodies), nt, n))


def effects(ctx):
    from rules import here, closure_of
    P, dump = ctx.P, ctx.dump["onenote_parser"]
    ext = dump["ext"]
    viol, nref, users = [], 0, {}
    for k, b in sorted(P.bodies.items()):
        for path, decl, sp, f in refs(b):
            if path in P.bodies:
                continue
            nref += 1
            both = path + " " + decl
            if READS_FILES.search(path) or READS_FILES.search(decl):
                users.setdefault(k, (path, sp))
                continue
            for rx, what in FORBIDDEN:
                if rx.search(path) or rx.search(decl):
                    viol.append((k, sp or here(P, k), "%s: calls %s" % (what, path), []))
                    break
            else:
                if WRITES.search(both):
                    ty = P.types[f["args"][0]]["s"] if f.get("args") else "?"
                    if not SINKS.match(ty):
                        viol.append((k, sp or here(P, k), "writes to %s" % ty, []))
                e = ext.get(path) or ext.get(decl)
                if e is not None and e["crate"] not in PURE_CRATES:
                    viol.append((k, sp or here(P, k), "calls %s of crate %s, which is not known to only compute" % (path, e["crate"]), []))
                if unsafe_call(e, b, path):
                    viol.append((k, sp or here(P, k), "calls the unsafe function %s" % path, []))
    viol += unsafe_items(P, dump)
    # who can reach the file system
    allowed = set(e for e in ENTRY if e in P.bodies)
    n = 0
    for k, b in sorted(P.bodies.items()):
        if b.j["kind"] == "Closure":
            continue
        if not (b.j.get("exported") or b.j.get("impl_trait")) or k in allowed:
            continue
        n += 1
        hit = sorted((closure_of(P, k) | {k}) & set(users))
        if hit:
            p, sp = users[hit[0]]
            viol.append((k, sp or here(P, k), "touches the file system through %s (%s)" % (hit[0].replace("crate::", ""), p), []))
    if not allowed:
        viol.append(("entry", "src/onenote/mod.rs", "the path-based entry points were not found", []))
    cov = {"bodies": len(P.bodies), "external_references": nref, "external_functions": len(ext), "file_readers": sorted(users),
           "entry_points_and_trait_impls_without_file_access": n, "unsafe_blocks": len(dump["unsafes"])}
    return dedup(viol), cov, ("%d references to %d external functions in %d bodies: none has an effect but reading files, and only the "
                              "path-based entry points reach those; no unsafe code" % (nref, len(ext), len(P.bodies)))


def dedup(v):
    seen, out = set(), []
    for x in v:
        if (x[0], x[1], x[2]) not in seen:
            seen.add((x[0], x[1], x[2]))
            out.append(x)
    return out


# ------------------------------------------------------------------ P27
SHARED = re.compile(r"std::thread::LocalKey|std::sync::(OnceLock|LazyLock|Once\b|Mutex|RwLock|atomic|Condvar|Barrier)|std::sync::atomic|"
                    r"std::cell::(LazyCell|OnceCell)|lazy_static|once_cell")


def stateless(ctx):
    from rules import here
    P, dump = ctx.P, ctx.dump["onenote_parser"]
    viol, nst, nty = [], 0, 0
    for c in dump["consts"]:
        ty = P.types[c["t"]]["s"]
        if "Static" in c["kind"]:
            nst += 1
            if c.get("static_mut") or not c.get("freeze", False):
                viol.append((c["id"], c["sp"], "state that outlives a call: static %s: %s" % (c["name"], ty), []))
        elif SHARED.search(ty):
            viol.append((c["id"], c["sp"], "state that outlives a call: %s: %s" % (c["name"], ty), []))
    for k, b in sorted(P.bodies.items()):
        for l in b.locals:
            ty = P.types[l["t"]]["s"]
            m = SHARED.search(ty)
            if m:
                viol.append((k, here(P, k), "uses shared state of type %s" % ty[:100], []))
                break
    for a in dump["adts"]:
        if not (a["exported"] or a["reach"]):
            continue
        nty += 1
        for q, n in (("send", "sent"), ("sync", "shared")):
            if not a[q]:
                viol.append((a["id"], a["sp"], "values cannot be %s between threads" % n, [culprit(P, dump, a)]))
        if not a["freeze"]:
            viol.append((a["id"], a["sp"], "has interior mutability", [culprit(P, dump, a)]))
    # no entry point changes the parser (or anything else given to it by reference)
    ne = 0
    for k, b in sorted(P.bodies.items()):
        if not b.j.get("exported") or b.j["kind"] == "Closure" or b.j.get("derive"):
            continue
        for i in range(b.argc):
            t = b.lty(i + 1)
            if t["k"] == "ref" and t["mut"]:
                ty = P.types[t["to"]]["s"]
                if b.j.get("impl_trait") and ("Formatter" in ty or "Hasher" in ty or "Request" in ty):
                    continue
                a = ctx.analysis(k)
                if a is None:
                    viol.append((k, here(P, k), "cannot be analysed: " + ctx.memo.get(("why", k), "?"), []))
                    continue
                v = a[2].env.get(("H", "p%d" % i))
                ne += 1
                if v is not None and v is not raw("sym", "*p%d" % i) and not all(l is raw("sym", "*p%d" % i) or l is BOT for l in leaves(v)):
                    viol.append((k, here(P, k), "changes its argument of type &mut %s" % ty, []))
    cov = {"statics": nst, "constants": len(dump["consts"]), "public_types": nty, "bodies": len(P.bodies), "mutable_arguments_of_public_functions": ne}
    return dedup(viol), cov, ("%d bodies, %d constants, %d statics, %d public types: no state outlives a call (no mutable or interior-mutable "
                              "static, thread-local, lock or atomic), and every public type is Send, Sync and free of interior mutability"
                              % (len(P.bodies), len(dump["consts"]), nst, nty))


def culprit(P, dump, a):
    out = []
    for v in a["variants"]:
        for f in v["f"]:
            s = P.types[f["t"]]["s"]
            if re.search(r"Rc<|Cell<|\*const|\*mut|dyn |Atomic|Mutex|RwLock|PhantomData", s):
                out.append("field %s: %s" % (f["n"], s))
    return "; ".join(out) or "see the types of its fields"


# ------------------------------------------------------------------ P28
# reviewed: what these take from a hash collection does not depend on its order
REVIEWED_ORDER = {
    "crate::fsshttpb::data_element::DataElementPackage::find_single": "an element is used only if there is exactly one",
    "crate::fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_by_serial": "the first is used only if all others are equal to it",
}
UNORDERED_SINKS = re.compile(r"::(sort|sort_unstable|sorted|sorted_unstable)$")
ADDRESSES = re.compile(r"fmt::Pointer|::as_ptr$|ptr::(addr|from_ref|eq|addr_eq)|Rc::<.*>::(ptr_eq|as_ptr)|Arc::<.*>::(ptr_eq|as_ptr)|ptr::hash|"
                       r"std::any::type_name|hash_map::RandomState|BuildHasher|std::hash::random|DefaultHasher")
SEQ = ("gen", "enum", "zip", "rev", "skip", "take", "chain", "ext", "sortk", "dedup", "iter", "rest", "step_by", "take_while", "skip_while", "map_while",
       "optseq")


class Order(object):
    """does a value depend on the order in which a hash collection or directory is enumerated?"""

    def __init__(self, ctx, tokens, params=()):
        self.ctx = ctx
        self.tokens = tokens        # terms enumerated in an arbitrary order
        self.params = params        # parameters that are such sequences
        self.memo = {}

    def token(self, t):
        return t in self.tokens or t.op in ("mapvals", "mapkeys", "mapiter") and t.a[0] in self.tokens

    def unordered(self, t):
        """t is a sequence whose elements (but not their order) are determined"""
        if self.token(t):
            return True
        if t.op in ("gen", "iter", "enum0"):
            return self.unordered(t.a[0]) and not any(self.dep(x) for x in kids(t)[1:])
        if t.op == "fld" and t.a[0].op == "call":
            return self.unordered(t.a[0])
        if t.op == "call" and t.a[0] in self.ctx.P.bodies:
            return self.ctx.order_source(t.a[0]) and not any(self.dep(x) for x in t.a[1:])
        if t.op == "ite":
            return all(self.unordered(x) or not self.dep(x) for x in t.a[1:]) and not self.dep(t.a[0])
        return False

    def dep(self, t):
        if t not in self.memo:
            self.memo[t] = False
            self.memo[t] = self._dep(t)
        return self.memo[t]

    def _dep(self, t):
        if self.token(t):
            return True
        op = t.op
        if op == "len":
            x = t.a[0]
            return False if self.unordered(x) else self.dep(x)
        if op == "out" and t.a[0].op == "call" and UNORDERED_SINKS.search(str(t.a[0].a[0])):
            x = t.a[0].a[1] if len(t.a[0].a) > 1 else None
            return x is None or not (self.unordered(x) or self.pushed(x)) and self.dep(x)
        if op == "sortk" and t.a[0] is t.a[1]:
            # put in the order of the elements themselves
            x = t.a[0]
            return not (self.unordered(x) or self.pushed(x)) and self.dep(x)
        if op in ("lpv", "lexit"):
            return self.loop(t)
        if op == "ite":
            # there is only one order for a single element
            one = self.single(t.a[0])
            if one is not None:
                b = list(t.a[1:])
                j = 0 if one[1] else 1
                first = collect(b[j], lambda y: y.op == "call" and y.a[0] == "first" and self.token(y.a[1]) and raw("len", y.a[1].a[0]) is one[0])
                b[j] = subst(b[j], {y: raw("sym", "only") for y in first})
                return self.dep(t.a[0]) or self.dep(b[0]) or self.dep(b[1])
        if op == "call":
            p = t.a[0]
            if isinstance(p, str) and p in self.ctx.P.bodies:
                if self.ctx.order_source(p):
                    return True
                return any(self.dep(x) and not (self.unordered(x) and self.ctx.order_blind(p, i)) for i, x in enumerate(t.a[1:]))
        if op == "mapext":
            # a map extended with elements of distinct keys
            m, g = t.a[0], t.a[1]
            if not self.dep(m) and self.keyed(g):
                return False
        return any(self.dep(x) for x in kids(t))

    def single(self, c):
        """(len, truth value of c that says it is at most one)"""
        if c.op == "lt" and c.a[0].op == "len" and c.a[1] is INT(2):
            return c.a[0], True
        if c.op == "lt" and c.a[1].op == "len" and c.a[0] is INT(1):
            return c.a[1], False
        if c.op == "eq" and c.a[0].op == "len" and c.a[1] is INT(1):
            return c.a[0], True
        if c.op == "eq" and c.a[1].op == "len" and c.a[0] is INT(1):
            return c.a[1], True
        return None

    def pushed(self, x):
        """a vector collected from an unordered sequence (failures included)"""
        if x.op == "fld":
            x = x.a[0]
        if x.op == "lpv":
            lp, tag, v = x.a
            return self.unordered(lp.a[1]) and all(self.collects(u, raw("lvb", lp.a[0], i)) for i, u in enumerate(lp.a[3]))
        return False

    def collects(self, u, me):
        return all(l is me or l is BOT or l.op == "push" and l.a[0] is me and not contains(l.a[1], lambda y: y.op == "lvb") for l in leaves(u))

    def keyed(self, g):
        """map entries whose keys are those of the map iterated over"""
        if g.op == "mapiter":
            return True
        if g.op == "gen" and self.unordered(g.a[0]) and g.a[0].op == "mapiter":
            x = g.a[2]
            k = fld(x, None, 0, ("tuple", 2))
            return k.op == "fld" and k.a[2] == 0 and k.a[0].op in ("elb", "el") and not any(self.dep(y) for y in kids(g)[1:])
        return False

    def loop(self, t):
        lp = t.a[0]
        h, src, inits, upds, nconds, econd = lp.a
        if not self.dep(src):
            return any(self.dep(x) for x in [x for x in inits] + list(upds) + list(nconds) + [econd] + [y for y in t.a[1:] if isinstance(y, T)])
        if not self.unordered(src):
            return True
        if any(self.dep(x) for x in list(inits) + list(upds) + list(nconds) + [econd]):
            return True
        mine = lambda y: y.op == "lvb" and y.a[0] == h
        elem = lambda y: y.op == "elb" and y.a[0] == h
        if any(contains(c, mine) for c in list(nconds) + [econd]):
            return True
        if t.op == "lexit":
            return contains(t.a[1], mine)
        tag, v = t.a[1], t.a[2]
        if contains(v, elem):
            return True
        cells = [y.a[1] for y in collect(v, mine)]
        seen = set()
        while cells:
            i = cells.pop()
            if i in seen:
                continue
            seen.add(i)
            if tag.op != "done" or not self.commutes(upds[i], raw("lvb", h, i), src, h):
                return True
        return False

    def commutes(self, u, me, src, h):
        """applying u for the elements in any order gives the same"""
        mine = lambda y: y.op == "lvb" and y.a[0] == h
        other = lambda x: contains(x, mine)
        kinds = set()
        for lits, l in splits(u):
            if l is BOT:
                continue
            for a, v in lits:
                if other(a):
                    g = a.a[0] if a.op == "isv" else a
                    if g.op == "call" and g.a[0] == "mapget":
                        g = raw("setin", g.a[1], g.a[2])
                    if g.op == "setin" and g.a[0] is me and not other(g.a[1]) and l.op in ("mapput", "setput", "lvb"):
                        if l is me or l.a[1] is g.a[1]:
                            continue
                        return False
                    if a.op == "lt" and me in a.a and not any(other(x) for x in a.a if x is not me):
                        kinds.add("minmax")
                        continue
                    return False
            if l is me:
                continue
            if l.op == "bin" and l.a[0] in ("Add", "BitOr", "BitAnd", "BitXor", "Mul"):
                xs = [x for x in l.a[2:] if x is not me]
                if len(xs) == 1 and not other(xs[0]):
                    kinds.add(l.a[0])
                    continue
                return False
            if l.op == "setput" and l.a[0] is me and not other(l.a[1]):
                kinds.add("set")
                continue
            if l.op == "mapput" and l.a[0] is me and not other(l.a[1]) and not other(l.a[2]):
                k = l.a[1]
                if src.op in ("mapiter",) and k.op == "fld" and k.a[2] == 0 and k.a[0].op == "elb" or src.op == "mapkeys" and k.op == "elb":
                    kinds.add("map")
                    continue
                return False
            if l.op in ("true", "false") or l is TRUE or l is FALSE:
                kinds.add("flag%s" % (l is TRUE))
                continue
            if not other(l) and not contains(l, lambda y: y.op == "elb" and y.a[0] == h) and l.op == "int":
                kinds.add("const%s" % l.a[0])
                continue
            if "minmax" in kinds and not other(l):
                continue
            return False
        return len(kinds) <= 1


def kids(t):
    out = []
    for x in t.a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            out.extend(y for y in x if isinstance(y, T))
    return out


def splits(v, lits=()):
    if v.op == "ite":
        for x in splits(v.a[1], lits + ((v.a[0], True),)):
            yield x
        for x in splits(v.a[2], lits + ((v.a[0], False),)):
            yield x
    else:
        yield lits, v


ITERATORS = re.compile(r"^(impl |dyn )?.*(hash_map::|hash_set::|std::iter::|Iterator)")


def deterministic(ctx):
    from rules import walk, here, closure_of
    P, dump = ctx.P, ctx.dump["onenote_parser"]
    viol, sites, memo = [], [], {}

    def tokens_of(e):
        out = set()
        for o in e.orders:
            v = o["v"]
            if v is None:
                continue
            if "read_dir" in o["path"]:
                out.add(raw("call", o["path"], v))
                continue
            for l in leaves(v):
                out.add(l)
        return out

    def analyse(u):
        a = ctx.analysis(u)
        return a

    def source(u):
        """the unit returns a sequence in arbitrary order"""
        key = ("src", u)
        if key not in memo:
            memo[key] = False
            b = P.bodies.get(u)
            if b is not None and ITERATORS.search(b.lty(0)["s"]):
                a = analyse(u)
                if a is not None and a[0].orders:
                    O = Order(ctx, tokens_of(a[0]))
                    memo[key] = any(O.dep(l) for l in leaves(a[1]))
        return memo[key]

    def blind(u, i):
        """the unit does not depend on the order of its sequence argument i"""
        key = ("blind", u, i)
        if key not in memo:
            memo[key] = True
            a = analyse(u)
            ok = a is not None
            if ok:
                O = Order(ctx, {raw("sym", "p%d" % i), raw("sym", "*p%d" % i)})
                ok = not O.dep(a[1]) and not any(c[0] == "H" and re.match(r"p\d+$", str(c[1])) and c[1] != "p%d" % i and O.dep(v)
                                                 for c, v in a[2].env.items())
            memo[key] = ok
        return memo[key]
    ctx.order_source, ctx.order_blind = source, blind
    okay = {"reviewed": 0, "order-insensitive": 0, "sequence": 0}

    def visit(u, e):
        a = ctx.analysis(u)
        tk = tokens_of(e)
        calls = set()
        for p, c, pc, stack, loops in e.events:
            if source(p):
                calls.add(p)
        if not tk and not calls:
            return
        for o in e.orders:
            sites.append((u, o["path"], o["sp"]))
        O = Order(ctx, tk)
        deps = []
        for l in leaves(a[1]):
            if O.dep(l):
                deps.append(("its result", l))
                break
        for c, v in a[2].env.items():
            if c[0] == "H" and re.match(r"p\d+$", str(c[1])) and O.dep(v):
                deps.append(("what it leaves in argument %s" % c[1], v))
        for p, c, pc, stack, loops in e.events:
            for i, x in enumerate(c.a[1:]):
                if O.dep(x) and not (O.unordered(x) and (p not in P.bodies or blind(p, i))):
                    deps.append(("what it passes to %s" % p.replace("crate::", ""), x))
                    break
        if not deps:
            okay["order-insensitive"] += 1
            return
        if source(u) and not P.bodies[u].j.get("exported"):
            okay["sequence"] += 1
            return
        if u in REVIEWED_ORDER and not ctx.cmp.check([u]):
            okay["reviewed"] += 1
            return
        o = e.orders[0] if e.orders else {"path": sorted(calls)[0], "sp": None}
        viol.append((u, o["sp"] or here(P, u), "%s depends on the order of %s" % (deps[0][0], o["path"]), [show(deps[0][1])[:300]]))
    done, reached, failed = walk(ctx, visit)
    for u in failed:
        viol.append((u, here(P, u), "cannot be analysed: " + ctx.memo.get(("why", u), "?"), []))
    # other sources of nondeterminism
    n = 0
    for k, b in sorted(P.bodies.items()):
        if b.j.get("derive"):
            continue
        for path, decl, sp, f in refs(b):
            n += 1
            if ADDRESSES.search(path) or ADDRESSES.search(decl):
                viol.append((k, sp or here(P, k), "depends on an address or a random hash: %s" % path, []))
            for rx, what in FORBIDDEN:
                if what in ("reads the clock", "uses randomness", "uses threads", "uses the environment", "starts or ends processes") and (
                        rx.search(path) or rx.search(decl)):
                    viol.append((k, sp or here(P, k), "%s: %s" % (what, path), []))
        for sp, what in address_casts(b):
            viol.append((k, sp or here(P, k), what, []))
    cov = {"enumerations": [(u.replace("crate::", ""), p, s) for u, p, s in sites], "judged": okay, "functions": len(done),
           "bodies_entered": len(reached), "external_references": n}
    return dedup(viol), cov, ("%d enumerations of hash collections and directories in %d bodies: what is computed from each does not depend on the "
                              "order (%s); no clock, randomness, address, thread or environment is read" % (
                                  len(sites), len(reached), ", ".join("%s %d" % x for x in sorted(okay.items()))))


def address_casts(b):
    out = []
    for blk in b.blocks:
        for s in blk["s"]:
            st = [s]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get("k") == "cast" and "Expose" in str(x.get("ck")):
                        out.append((s.get("sp"), "uses an address as a number"))
                    st.extend(x.values())
                elif isinstance(x, list):
                    st.extend(x)
    return out
