"""Semantics of the standard-library (and third-party) functions the repository calls,
as term builders.  Anything not modelled here is an opaque call."""
import re
from terms import *
from engine import (Engine, St, OPT, RES, CF, mkext, mkmext, mkgen, fuse_src, strip_maps, LoopCtx,
                    Unsupported)

CONT = lambda x: raw("adt", CF, 0, "Continue", (x,))
BRK = lambda x: raw("adt", CF, 1, "Break", (x,))

IDENT = {
    "std::clone::Clone::clone", "std::ops::Deref::deref", "std::convert::AsRef::as_ref",
    "std::borrow::Borrow::borrow", "std::borrow::ToOwned::to_owned", "std::string::ToString::to_string",
    "std::slice::<impl [T]>::to_vec", "std::vec::Vec::<T, A>::as_slice", "std::string::String::as_str",
    "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new",
    "std::borrow::Cow::<'_, B>::into_owned", "std::hint::must_use", "std::hint::black_box",
    "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_deref", "std::option::Option::<&T>::copied",
    "std::option::Option::<&T>::cloned", "std::result::Result::<T, E>::as_ref",
    "std::iter::Iterator::copied", "std::iter::Iterator::cloned", "std::iter::Iterator::by_ref",
    "std::iter::Iterator::fuse", "std::iter::Iterator::peekable",
    "std::path::PathBuf::as_path", "std::vec::Vec::<T, A>::into_boxed_slice", "core::slice::<impl [T]>::as_ref",
    "std::string::String::into_boxed_str", "std::slice::<impl [T]>::into_vec", "std::string::String::as_bytes",
    "core::str::<impl str>::as_bytes", "std::string::String::into_bytes", "std::convert::identity",
    "std::option::Option::<&mut T>::copied", "std::option::Option::<&mut T>::cloned",
    "std::result::Result::<&T, E>::copied", "std::result::Result::<&T, E>::cloned",
    "std::slice::<impl [T]>::to_owned", "core::slice::<impl [T]>::as_slice", "std::vec::Vec::<T, A>::shrink_to_fit",
    "core::array::<impl [T; N]>::as_slice", "std::borrow::Cow::<'_, B>::to_mut",
    "std::path::Path::to_path_buf", "std::str::<impl str>::to_owned", "std::str::<impl str>::into_string",
}
MUTIDENT = {"std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut",
            "std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::reserve", "std::iter::Iterator::by_ref"}

FLOATS = ("f32", "f64")


# what reserves memory: (path, index of the argument that gives the amount)
RESERVE_CALL = re.compile(r"::(with_capacity|with_capacity_in|try_with_capacity|with_capacity_and_hasher|new_uninit_slice|new_zeroed_slice|zeroed)$")
RESERVE_SELF = re.compile(r"::(reserve|reserve_exact|try_reserve|try_reserve_exact|resize|resize_with|repeat|repeat_n|grow)$")
RESERVE_ELEM = re.compile(r"^(std|alloc)::vec::from_elem$")
COLLECTS = re.compile(r"(::Iterator::collect|::Iterator::collect_into|::Itertools::collect_vec|FromIterator(<.*>)?>?::from_iter)$")
EXTENDS = re.compile(r"::Extend(<.*>)?>?::extend$")
RESERVES = [(RESERVE_CALL, 0), (RESERVE_ELEM, 1), (RESERVE_SELF, 1), (COLLECTS, 0), (EXTENDS, 1)]

# what is enumerated in an order that is not the input's
ORDERED = re.compile(r"(Hash(Map|Set)::?<.*>::|Hash(Map|Set)<.*> as .*>::)(iter|iter_mut|values|values_mut|keys|into_keys|into_values|into_iter|drain|"
                     r"retain|union|intersection|difference|symmetric_difference|extract_if|fmt)$|Path::read_dir$|^std::fs::read_dir$")
ORDERED_BY_TYPE = re.compile(r"::IntoIterator>?::into_iter$|::Debug>?::fmt$")
HASHED = re.compile(r"^&?('[a-z_]+ )?(mut )?std::collections::(hash_map::)?Hash(Map|Set)<")


def hint(e, it):
    """the lower bound of what the iterator announces: what collecting it reserves"""
    op = it.op
    if op == "bot":
        return INT(0)
    if op == "ite":
        return ite(it.a[0], hint(e, it.a[1]), hint(e, it.a[2]))
    if op in ("iter", "itlv"):
        src, stages = (it.a[0], it.a[1]) if op == "iter" else (it.a[2].a[0], it.a[2].a[1])
        if any(s.op not in ("st_map", "st_inspect") for s in stages):
            return INT(0)
        return hint(e, src)
    if op in ("range", "rangei"):
        return it.a[1]
    if op == "gen":
        return hint(e, it.a[0]) if it.a[1] is TRUE else INT(0)
    if op == "take":
        return it.a[1] if endless_src(it.a[0]) else hint(e, it.a[0])
    if op in ("enum", "rev", "skip", "step_by", "rest", "sortk", "chunks_exact", "chunks"):
        return hint(e, it.a[0])
    if op == "zip":
        return hint(e, it.a[1] if endless_src(it.a[0]) else it.a[0])
    if op in ("chain", "ext"):
        return binop("Add", "usize", hint(e, it.a[0]), hint(e, it.a[1]))
    if op in ("dedup", "skip_while", "take_while", "map_while", "scan"):
        return INT(0)
    if op == "call":
        if it.a[0] in ("std::iter::repeat_n",) and len(it.a) > 2:
            return it.a[2]
        if it.a[0].startswith("std::iter::"):
            return INT(0)
    return e.length(it)


def endless_src(s):
    if s.op == "call" and s.a[0] in ("std::iter::repeat", "std::iter::repeat_with"):
        return True
    return s.op in ("rangefrom", "cycle") or s.op in ("gen", "iter", "enum") and endless_src(s.a[0])


class Eng(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.fninfo = {}
        self.unknown = set()

        def hook(op, x):
            if op == "call":
                return self.mapget(x[1], x[2])
            if op == "len":
                return self.length(x[0])
            if op == "idx":
                return self.index(x[0], x[1])
            if op == "setin":
                return setin(x[0], x[1])
            return raw(op, *x)
        REBUILD_HOOK[:] = [hook]

    # ------------------------------------------------------------ helpers
    def argty(self, fn, i):
        try:
            return self.prog.types[fn["args"][i]]
        except Exception:
            return {"s": "?", "k": "?"}

    def destty(self, F, t):
        if t is None or F is None:
            return {"s": "?", "k": "?"}
        d = t["d"]
        if d["p"]:
            return self.prog.types[d["t"]]
        return F.body.lty(d["l"])

    def default_of(self, ty, st):
        s = ty["s"]
        if s in WID:
            return INT(0), st
        if s == "bool":
            return FALSE, st
        if s in FLOATS:
            return raw("float", 0.0), st
        if s in ("std::string::String", "&str", "str"):
            return STR(""), st
        if s == "()":
            return UNIT, st
        if ty.get("def") == OPT:
            return NONE, st
        if s.startswith("std::vec::Vec<") or s.startswith("&["):
            return raw("vecnil"), st
        if s.startswith("std::collections::HashMap<") or s.startswith("std::collections::BTreeMap<"):
            return raw("mapnil"), st
        if s.startswith("std::collections::HashSet<") or s.startswith("std::collections::BTreeSet<"):
            return raw("setnil"), st
        if ty["k"] == "tuple":
            out = []
            for i in ty["args"]:
                v, st = self.default_of(self.prog.types[i], st)
                out.append(v)
            return ADT("tuple", 0, None, tuple(out)), st
        it = self.prog.default_impls.get(s)
        if it and it in self.prog.bodies:
            return self.call_body(self.prog.bodies[it], [], st)
        return raw("call", "default:" + s), st

    def deref(self, v, st):
        """value behind a possible &mut"""
        def f(x):
            if x.op == "mref":
                return self.load_cp(("cell", x.a[0]), list(x.a[1]), st)
            return x
        return under(lift(f, v), st.pc)

    def setref(self, ref, v, st):
        st = st.copy()
        ref = under(ref, st.pc)
        if ref.op == "mref":
            self.store_cp(("cell", ref.a[0]), list(ref.a[1]), v, st)
        elif ref.op == "ite":
            self.store_cp(("multi", ref), [], v, st)
        else:
            self.notes.append(("set-through-opaque", show(ref)[:60], self.stack[-1] if self.stack else ""))
        return st

    # ------------------------------------------------------------ iterators
    def iter_of(self, v, ty=None):
        def f(x):
            if x.op in ("iter", "itlv", "itnext", "itrest"):
                return x
            if x.op == "adt" and x.a[0] in ("std::ops::Range", "core::ops::Range"):
                return raw("iter", raw("range", x.a[3][0], x.a[3][1]), ())
            if x.op == "adt" and x.a[0] in ("std::ops::RangeInclusive",):
                return raw("iter", raw("rangei", x.a[3][0], x.a[3][1]), ())
            if x.op == "adt" and x.a[0] in ("std::ops::RangeFrom",):
                return raw("iter", raw("rangefrom", x.a[3][0]), ())
            if x.op == "call" and x.a[0].endswith("RangeInclusive::<Idx>::new"):
                return raw("iter", raw("rangei", x.a[1], x.a[2]), ())
            return raw("iter", x, ())
        if v.op == "ite":
            ls = leaves(v)
            if any(l.op in ("iter", "itlv") for l in ls):
                return lift(f, v)
            return raw("iter", v, ())
        return f(v)

    def stage(self, it, sg):
        def f(x):
            if x.op == "iter":
                return raw("iter", x.a[0], x.a[1] + (sg,))
            return raw("iter", raw("rest", x), (sg,))
        return lift(f, it)

    def base_of(self, it, st):
        """pure sequence term of an iterator"""
        def f(x):
            if x.op == "iter":
                return self.materialize(x, st)
            return raw("rest", x)
        return lift(f, it)

    def next(self, ref, st):
        it = self.deref(ref, st)
        if it.op == "itlv":
            depth, i, init = it.a
            base, stages = init.a
            ctx = [c for c in self.loopstack if c.depth == depth][-1]
            cell = ref.a[0] if ref.op == "mref" else None
            key = None
            for c, lv in ctx.lvs.items():
                if lv is it:
                    key = c
            ctx.nexts.setdefault(key, []).append(1)
            more = raw("more", depth, i)
            x, g, s2 = self.run_stages(base, stages, st.fork(more), depth)
            if g is not TRUE:
                ctx.guards.append(g)
                ctx.present.append((self.tick(), g))
            # effects of stage closures
            st2 = st.copy()
            for c, v in s2.env.items():
                if st2.env.get(c) is not v:
                    st2.env[c] = ite(more, v, st2.env[c]) if c in st2.env else v
            st2 = self.setref(ref, raw("itnext", it), st2)
            return ite(more, SOME(x), NONE), st2
        if it.op == "iter" and not it.a[1] and ref.op == "mref":
            base = it.a[0]
            k = self.const_seq(base)
            if k is not None:
                return (SOME(k[0]) if k else NONE), self.setref(ref, raw("iter", ADT("array", 0, None, k[1:]), ()), st)
            r = self.seq_first(base)
            return r, self.setref(ref, raw("iter", raw("skip", base, INT(1)), ()), st)
        if it.op == "iter" and ref.op == "mref":
            k = self.const_seq(it.a[0])
            if k == ():
                return NONE, st
            if k is not None and all(sg.op in ("st_map", "st_inspect", "st_const", "st_seq") for sg in it.a[1]):
                x, _g, st = self.on_stages(k[0], TRUE, it.a[1], st)
                return SOME(x), self.setref(ref, raw("iter", ADT("array", 0, None, k[1:]), it.a[1]), st)
            b = self.materialize(it, st)
            if b.op == "gen" and b.a[1] is not TRUE:
                v, st = self.consume(it, lambda x, s: ([], [(SOME(x), s, False)]), st, lambda s: NONE)
                return v, self.setref(ref, raw("iter", raw("skip", b, INT(1)), ()), st)
            r = self.seq_first(b)
            return r, self.setref(ref, raw("iter", raw("skip", b, INT(1)), ()), st)
        if ref.op == "mref":
            return raw("call", "next", it), self.setref(ref, raw("itnext", it), st)
        return raw("call", "next", it), st

    def const_seq(self, b):
        """the elements of a sequence of few, known, elements"""
        N = 8 if b.op != "adt" else 40
        if b.op == "adt" and b.a[0] == "array":
            return b.a[3] if len(b.a[3]) <= N else None
        if b.op == "vecnil":
            return ()
        if b.op == "push":
            r = self.const_seq(b.a[0])
            return r + (b.a[1],) if r is not None and len(r) < N else None
        if b.op == "bytes":
            return tuple(INT(x) for x in b.a[0]) if len(b.a[0]) <= N else None
        if b.op in ("range", "rangei") and b.a[0].op == "int" and b.a[1].op == "int":
            lo, hi = b.a[0].a[0], b.a[1].a[0] + (b.op == "rangei")
            return tuple(INT(k) for k in range(lo, hi)) if hi - lo <= N else None
        if b.op == "enum":
            r = self.const_seq(b.a[0])
            return None if r is None else tuple(ADT("tuple", 0, None, (INT(k), x)) for k, x in enumerate(r))
        if b.op == "rev":
            r = self.const_seq(b.a[0])
            return None if r is None else r[::-1]
        if b.op in ("skip", "take") and b.a[1].op == "int":
            r = self.const_seq(b.a[0])
            k = b.a[1].a[0]
            return None if r is None else r[k:] if b.op == "skip" else r[:k]
        if b.op == "zip":
            r, q = self.const_seq(b.a[0]), self.const_seq(b.a[1])
            if r is not None and q is not None:
                return tuple(ADT("tuple", 0, None, x) for x in zip(r, q))
            i = 0 if b.a[0].op == "rangefrom" else 1
            o = b.a[i]
            r = q if i == 0 else r
            if r is not None and o.op == "rangefrom" and o.a[0].op == "int":
                num = [INT(o.a[0].a[0] + k) for k in range(len(r))]
                return tuple(ADT("tuple", 0, None, x) for x in (zip(num, r) if i == 0 else zip(r, num)))
            return None
        if b.op == "sub2" and b.a[1].op == "int" and b.a[2].op == "int":
            r = self.const_seq(b.a[0])
            lo, hi = b.a[1].a[0], b.a[2].a[0]
            return r[lo:hi] if r is not None and lo <= hi <= len(r) else None
        return None

    def known_iter(self, it):
        return self.const_seq(it.a[0]) if it.op == "iter" else None

    def seq_first(self, b):
        if b.op == "adt" and b.a[0] == "array":
            return SOME(b.a[3][0]) if b.a[3] else NONE
        if b.op == "vecnil":
            return NONE
        if b.op == "gen" and b.a[1] is TRUE:
            x, _ = self.elem_of(b, raw("idx", fuse_src(b), INT(0)))
            return ite(eq(self.length(b), INT(0)), NONE, SOME(x))
        if b.op == "gen":
            return raw("call", "first", b)
        if b.op == "skip":
            return self.seq_get(b.a[0], b.a[1])
        if b.op in ("mapvals", "mapkeys", "mapiter"):
            return ite(eq(self.length(b), INT(0)), NONE, SOME(some_val(raw("call", "first", b))))
        return self.seq_get(b, INT(0))

    def seq_get(self, v, i):
        def f(x):
            n = self.length(x)
            return ite(lt(i, n), SOME(self.index(x, i)), NONE)
        return lift(f, v)

    def consume(self, it, step, st, fin):
        """run `step` over iterator it; returns merged (value, St).  step(x, st) ->
        (conts, exits) with exits [(value, St, iserr)]; fin(St) -> value at exhaustion"""
        it = under(it, st.pc)
        if it.op == "ite":
            a = it.a[0]
            r1, s1 = self.consume(it.a[1], step, st.fork(a), fin)
            r2, s2 = self.consume(it.a[2], step, st.fork(NOT(a)), fin)
            s1.env[("R", 1, 0)] = r1
            s2.env[("R", 1, 0)] = r2
            m = self.merge([s1, s2])
            return m.env.pop(("R", 1, 0), BOT), m
        if it.op != "iter":
            it = raw("iter", raw("rest", it), ())
        if it.a[0].op in ("vecnil",):
            return fin(st), st
        if it.a[0].op == "optseq":
            return self.consume_one(it, step, st, fin)
        k = self.const_seq(it.a[0])
        if k is not None:
            return self.consume_list(k, it.a[1], step, st, fin)
        if it.a[0].op == "take_while" and it.a[0].a[1].op in ("clo", "fn"):
            src, pred = it.a[0].a
            stages = it.a[1]

            def step2(x, s1):
                c, s1 = self.apply(pred, [x], s1)
                c = under(c, s1.pc)
                s0 = s1.fork(NOT(c))
                y, g, s2 = self.on_stages(x, TRUE, stages, s1.fork(c))
                conts, exits = step(y, s2)
                if g is not TRUE:
                    conts = conts + [s1.fork(AND(c, NOT(g)))]
                return conts, exits + [(fin(s0), s0, False)]
            return self.consume(raw("iter", src, ()), step2, st, fin)
        outs = self.virtual_loop(it, step, st)
        sts = []
        for kind, val, s in outs:
            v = fin(s) if kind == "done" else val
            s.env[("R", 1, 0)] = v
            sts.append(s)
        m = self.merge(sts)
        return m.env.pop(("R", 1, 0), BOT), m

    def consume_list(self, xs, stages, step, st, fin):
        """few known elements: one step after the other"""
        cur, done = [st], []

        def end(val, s):
            if s.pc is not FALSE:
                s = s.copy()
                s.env[("R", 1, 0)] = val
                done.append(s)
        for x in xs:
            s = self.merge(cur)
            if s.pc is FALSE:
                break
            y, g, s1 = self.on_stages(under(x, s.pc), TRUE, stages, s)
            conts, exits = step(y, s1)
            for val, s2, _e in exits:
                end(val, s2)
            cur = list(conts)
            if g is not TRUE:
                cur.append(s.fork(NOT(g)))
        s = self.merge(cur)
        if s.pc is not FALSE:
            end(fin(s), s)
        m = self.merge(done)
        return m.env.pop(("R", 1, 0), BOT), m

    def consume_one(self, it, step, st, fin):
        """an iterator of at most one element"""
        v = it.a[0].a[0]
        c = is_some(v)
        x, g, s1 = self.on_stages(under(some_val(v), AND(st.pc, c)), c, it.a[1], st.fork(c))
        conts, exits = step(x, s1)
        s0 = st.fork(NOT(g))
        sts = []
        for s in [s0] + conts:
            if s.pc is FALSE:
                continue
            s = s.copy()
            s.env[("R", 1, 0)] = fin(s)
            sts.append(s)
        for val, s, _e in exits:
            if s.pc is FALSE:
                continue
            s = s.copy()
            s.env[("R", 1, 0)] = val
            sts.append(s)
        m = self.merge(sts)
        return m.env.pop(("R", 1, 0), BOT), m

    def newcell(self, st, v):
        c = ("H", "k%d" % self.nheap)
        self.nheap += 1
        st.env[c] = v
        return c

    def push_val(self, acc, x):
        return raw("push", acc, x)

    def collect(self, it, ty, st):
        s = ty["s"]
        kind = ty.get("def", "")
        st = st.copy()
        if kind == RES:
            inner = self.prog.types[ty["args"][0]]
            return self.collect_into(it, inner, st, RES)
        if kind == OPT:
            inner = self.prog.types[ty["args"][0]]
            return self.collect_into(it, inner, st, OPT)
        return self.collect_into(it, ty, st, None)

    def collect_into(self, it, ty, st, wrapk):
        s = ty["s"]
        if s.startswith("std::vec::Vec<") or s.startswith("std::boxed::Box<["):
            init, put = raw("vecnil"), self.push_val
        elif s.startswith("std::collections::HashMap<") or s.startswith("std::collections::BTreeMap<"):
            init, put = raw("mapnil"), lambda a, x: raw("mapput", a, fld(x, None, 0, ("tuple", 2)), fld(x, None, 1, ("tuple", 2)))
        elif s.startswith("std::collections::HashSet<"):
            init, put = raw("setnil"), lambda a, x: raw("setput", a, x)
        elif s == "std::string::String":
            init, put = STR(""), lambda a, x: strcat(a, x)
        elif s == "()":
            init, put = UNIT, lambda a, x: a
        else:
            init, put = raw("nil:" + s), lambda a, x: raw("push", a, x)
        st = st.copy()
        cell = self.newcell(st, init)

        def step(x, s1):
            s1 = s1.copy()
            exits = []
            if wrapk == RES:
                e = under(is_err(x), s1.pc)
                if e is not FALSE:
                    se = s1.fork(e)
                    exits.append((ERRV(under(err_val(x), se.pc)) if not self.collapse else ERRV(ERR), se, True))
                s1 = s1.fork(NOT(e))
                x = under(ok_val(x), s1.pc)
            elif wrapk == OPT:
                e = NOT(is_some(x))
                se = s1.fork(e)
                exits.append((NONE, se, True))
                s1 = s1.fork(is_some(x))
                x = under(some_val(x), s1.pc)
            s1.env[cell] = put(s1.env[cell], under(x, s1.pc))
            return [s1], exits

        def fin(s1):
            v = s1.env[cell]
            return OK(v) if wrapk == RES else SOME(v) if wrapk == OPT else v
        v, st2 = self.consume(it, step, st, fin)
        st2 = st2.copy()
        st2.env.pop(cell, None)
        return v, st2

    # ------------------------------------------------------------ the model dispatcher
    def note_alloc(self, F, fn, path, args, st, t):
        """record what a library call reserves memory for"""
        for rx, i in RESERVES:
            if rx.search(path):
                if i < len(args):
                    n = args[i]
                    if rx in (COLLECTS, EXTENDS):
                        ty = self.destty(F, t) if F is not None and t else {}
                        if ty.get("def") in (RES, OPT):
                            return
                        n = self.deref(n, st)
                        n = lift(lambda x: hint(self, x), self.iter_of(n))
                    self.allocs.append({"path": path, "n": n, "pc": st.pc, "stack": tuple(self.stack), "loops": list(self.loopstack),
                                        "fn": F.body.id if F is not None else "?", "sp": (t.get("fsp") or t["sp"]) if t else None})
                return

    def model(self, F, fn, path, decl, args, st, t):
        if self.record:
            self.note_alloc(F, fn, path, args, st, t)
            if ORDERED.search(path) or ORDERED_BY_TYPE.search(path) and args and fn.get("args") and \
                    HASHED.match(self.argty(fn, 0)["s"]):
                self.orders.append({"path": path, "v": self.deref(args[0], st) if args else None,
                                    "fn": F.body.id if F is not None else "?", "sp": (t.get("fsp") or t["sp"]) if t else None})
        if (decl in IDENT or path in IDENT) and not (fn["local"] and self.custom(path)):
            v = args[0]
            if decl.endswith("as_ref") or True:
                v = self.deref(v, st) if not decl.endswith("by_ref") else v
            return v, st
        if (decl in MUTIDENT or path in MUTIDENT) and not (fn["local"] and self.custom(path)):
            if path.endswith("reserve"):
                return UNIT, st
            return args[0], st
        f = TABLE.get(path) or TABLE.get(decl) or TABLE.get(hashed(path))
        if f is not None:
            r = f(self, F, fn, args, st, t)
            if r is not None:
                return r
        if decl.startswith("std::ops::") and fn.get("trait"):
            r = self.op_trait(fn, decl, args, st)
            if r is not None:
                return r
        if decl in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            b = self.prog.bodies.get(path)
            if b is not None and path not in self.opaque and self.custom(path):
                return None
            e = self.eqty(self.argty(fn, 0), self.deref(args[0], st), self.deref(args[1], st))
            return (e if decl.endswith("eq") else NOT(e)), st
        if decl.startswith("std::cmp::PartialOrd::") or decl.startswith("std::cmp::Ord::"):
            op = decl.split("::")[-1]
            ty = self.argty(fn, 0)["s"].lstrip("&")
            a, b = [self.deref(x, st) for x in args[:2]] if len(args) > 1 else (args[0], None)
            if ty in WID:
                m = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}.get(op)
                if m:
                    return binop(m, ty, a, b), st
                if op == "min":
                    return ite(lt(b, a), b, a), st
                if op == "max":
                    return ite(lt(b, a), a, b), st
                if op == "clamp" and len(args) == 3:
                    c = self.deref(args[2], st)
                    if b.op == "int" and c.op == "int" and b.a[0] <= c.a[0]:
                        return ite(binop("Lt", ty, a, b), b, ite(binop("Lt", ty, c, a), c, a)), st
                if op in ("cmp", "partial_cmp"):
                    o = "std::cmp::Ordering"
                    r = ite(binop("Lt", ty, a, b), ADT(o, 0, "Less", ()),
                            ite(eq(a, b), ADT(o, 1, "Equal", ()), ADT(o, 2, "Greater", ())))
                    return (SOME(r) if op == "partial_cmp" else r), st
        if decl.startswith("num_traits::FromPrimitive::from_"):
            ty = self.argty(fn, 0)
            a = self.prog.adts.get(ty.get("def"))
            if a and not any(im.get("trait") == "num_traits::FromPrimitive" and self.prog.types[im["self"]].get("def") == a["id"] and
                             any(self.custom(i) for i in im["items"]) for im in self.prog.impls):
                n = decl.rsplit("_", 1)[1]
                if self.record and WID.get(n, 0) > 32:     # the derived code looks at 32 bits
                    self.casts.append({"fn": F.body.id, "sp": t["sp"], "pc": st.pc, "v": args[0], "from": n, "to": "u32",
                                       "stack": tuple(self.stack), "loops": list(self.loopstack), "site": (F.body.id, id(t))})
                return self.from_prim(a, args[0]), st
        if decl.startswith("num_traits::ToPrimitive::to_"):
            x = self.deref(args[0], st)
            ty = self.argty(fn, 0)
            a = self.prog.adts.get(ty.get("def"))
            if a:
                w = decl.split("_")[-1]

                def g(y):
                    if y.op == "adt":
                        return SOME(INT(a["variants"][y.a[1]]["d"]))
                    return SOME(raw("cast", "isize", w, raw("discr", y, "isize", a["id"])))
                return lift(g, x), st
        return None

    def eqty(self, ty, a, b, d=0):
        """derived equality of small structs is the conjunction over the fields"""
        while ty is not None and ty["k"] == "ref":
            ty = self.prog.types[ty["to"]]
        ad = self.prog.adts.get(ty.get("def")) if ty and ty["k"] == "adt" else None
        if ad is None or ad["kind"] != "Struct" or d > 3 or not 1 < len(ad["variants"][0]["f"]) <= 6 \
                or not self.derived_eq(ad["id"]):
            return self.eqv(a, b)
        fs = ad["variants"][0]["f"]
        r = TRUE
        for i, f in enumerate(fs):
            tag = (ad["id"], len(fs))
            r = AND(r, self.eqty(self.prog.types[f["t"]], fld(a, None, i, tag) if a.op != "adt" else a.a[3][i],
                                 fld(b, None, i, tag) if b.op != "adt" else b.a[3][i], d + 1))
        return r

    def derived_eq(self, adt):
        m = self.prog.__dict__.setdefault("_deq", {})
        if adt not in m:
            m[adt] = False
            for im in self.prog.impls:
                if im.get("trait") == "std::cmp::PartialEq" and self.prog.types[im["self"]].get("def") == adt:
                    m[adt] = not any(self.custom(i) for i in im["items"])
        return m[adt]

    def custom(self, path):
        """a hand-written implementation that is not shown to do what a derived one does"""
        b = self.prog.bodies.get(path)
        if b is None or b.j.get("derive"):
            return False
        m = self.prog.__dict__.setdefault("_custom", {})
        if path not in m:
            m[path] = True           # while it is being looked at
            m[path] = not as_derived(self.prog, b)
        return m[path]

    def eqv(self, a, b):
        return eq(a, b)

    def from_prim(self, a, x):
        def f(v):
            if v.op == "int":
                for i, var in enumerate(a["variants"]):
                    if var["d"] == v.a[0]:
                        return SOME(ADT(a["id"], i, var["n"], ()))
                return NONE
            # built bottom-up in canonical atom order: linear in the number of variants
            arms = []
            for i, var in enumerate(a["variants"]):
                arms.append((eq(v, INT(var["d"])), SOME(ADT(a["id"], i, var["n"], ()))))
            arms.sort(key=lambda p: p[0]._k, reverse=True)
            r = NONE
            for c, x in arms:
                r = ite(c, x, r) if c.op in ("true", "false", "ite") else raw("ite", c, x, r)
            return r
        return lift(f, x)

    def op_trait(self, fn, decl, args, st):
        op = decl.split("::")[-1]
        names = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd",
                 "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}
        if fn["local"]:
            return None
        ty = self.argty(fn, 0)["s"].lstrip("&")
        if op in names and ty in WID:
            x, y = self.deref(args[0], st), self.deref(args[1], st)
            self.arith_obl(None, names[op], ty, x, y, st, None)
            return binop(names[op], ty, x, y), st
        if op == "add" and ty == "std::string::String":
            return strcat(self.deref(args[0], st), self.deref(args[1], st)), st
        if op.endswith("_assign") and op[:-7] in names and ty in WID:
            x, y = self.deref(args[0], st), self.deref(args[1], st)
            self.arith_obl(None, names[op[:-7]], ty, x, y, st, None)
            return UNIT, self.setref(args[0], binop(names[op[:-7]], ty, x, y), st)
        if op == "not" and ty == "bool":
            return NOT(args[0]), st
        return None

    def index_model(self, F, fn, args, st, t):
        v = self.deref(args[0], st)
        i = args[1]
        r = self.do_index(v, self.deref(i, st) if is_map(self.argty(fn, 0)) else i, is_map(self.argty(fn, 0)))
        self.add_obl(F, "index", t, st, None, {"base": v, "index": i}, self.argty(fn, 0)["s"], fn)
        return r, st

    def do_index(self, v, i, ismap=False):
        def f(x):
            if x.op == "adt" and "Range" in x.a[0]:
                nm = x.a[0].split("::")[-1]
                if nm == "Range":
                    return mksub(self, v, x.a[3][0], x.a[3][1])
                if nm == "RangeFrom":
                    return mksub(self, v, x.a[3][0], self.length(v))
                if nm == "RangeTo":
                    return mksub(self, v, INT(0), x.a[3][0])
                if nm == "RangeFull":
                    return v
                return raw("call", "index", v, x)
            if ismap or v.op in ("mapput", "mapnil", "mapdel", "mapext"):
                return some_val(self.mapget(v, x))
            return self.index(v, x)
        return lift(f, i)

    def sub(self, x, lo, hi):
        return mksub(self, x, lo, hi)

    def add_obl(self, F, kind, t, st, ok, d, ty=None, fn=None, site=None):
        """the program panics here unless `ok` (or what `kind` stands for) holds"""
        if not self.record:
            return
        f = F.body.id if F is not None else (self.stack[-1] if self.stack else "?")
        self.obls.append({"kind": kind, "fn": f, "sp": (t.get("fsp") or t["sp"]) if t else "", "pc": st.pc, "ok": ok,
                          "d": d, "stack": tuple(self.stack), "loops": list(self.loopstack), "ty": ty,
                          "callee": fn["path"] if fn else None, "decl": fn["decl"] if fn else None,
                          "site": (f, id(t) if t else 0, site)})

    def ext_obl(self, F, fn, args, st, t):
        self.add_obl(F, "call", t, st, None, {"args": tuple(args), "never": bool(t) and t.get("to") is None}, None, fn)

    def len_obl(self, F, fn, x, n, st, t):
        """n <= len(x) or the call panics"""
        self.add_obl(F, "len", t, st, NOT(lt(self.length(x), n)), {"base": x, "index": n}, None, fn)

    def arith_obl(self, F, op, ty, x, y, st, t):
        """a checked operator performed by a library function"""
        if op in ("BitAnd", "BitOr", "BitXor"):
            return
        if op in ("Add", "Sub", "Mul"):
            kind, ok = "overflow", NOT(raw("ovf", op, ty, x, y))
        elif op in ("Div", "Rem"):
            kind, ok = "div0", NOT(eq(y, INT(0)))
        else:
            kind, ok = "shift", lt(y, INT(WID[ty]))
        self.add_obl(F, kind, t, st, ok, {"a": x, "b": y, "op": op}, ty, None, (op, x, y))

    def unwrap_obl(self, F, fn, cond, st, t):
        self.add_obl(F, "unwrap", t, st, cond, {}, None, fn)


def as_derived(prog, b):
    """does this implementation of Clone or PartialEq do what the derived one does?"""
    name = b.id.split("::")[-1]
    if name not in ("clone", "eq", "ne"):
        return False
    import equiv
    e = Eng(prog)
    try:
        r, s = e.analyse(b.id)
        if e.notes:
            return False
        p = [raw("sym", "p%d" % i) for i in range(b.argc)]
        if name == "clone":
            return equiv.Eq().eq(r, p[0])
        ty = b.lty(1)
        while ty["k"] == "ref":
            ty = prog.types[ty["to"]]
        ad = prog.adts.get(ty.get("def"))
        if ad is None or ad["kind"] != "Struct":
            return False
        fs = ad["variants"][0]["f"]
        want = TRUE
        for i, f in enumerate(fs):
            tag = (ad["id"], len(fs))
            want = AND(want, e.eqty(prog.types[f["t"]], fld(p[0], None, i, tag), fld(p[1], None, i, tag)))
        if name == "ne":
            r = NOT(r)
        return equiv.Eq().eq(r, want)
    except (Unsupported, Budget, equiv.Budget, RecursionError, OverflowError):
        return False


def mksub(eng, v, lo, hi):
    def f(x):
        if lo is INT(0) and hi is eng.length(x):
            return x
        if x.op == "sub2":
            return mksub(eng, x.a[0], binop("Add", "usize", x.a[1], lo), binop("Add", "usize", x.a[1], hi))
        return raw("sub2", x, lo, hi)
    return lift(f, v)


def strcat(a, b):
    def parts(x):
        if x.op == "fmt":
            return list(x.a[0])
        if x.op == "str":
            return [x] if x.a[0] else []
        return [x]
    p = []
    for x in parts(a) + parts(b):
        if p and p[-1].op == "str" and x.op == "str":
            p[-1] = STR(p[-1].a[0] + x.a[0])
        else:
            p.append(x)
    if not p:
        return STR("")
    if len(p) == 1:
        return p[0]
    return raw("fmt", tuple(p))


# ---------------------------------------------------------------- the table
TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


O = "std::option::Option::<T>::"
R = "std::result::Result::<T, E>::"


@reg("std::ops::Try::branch")
def _branch(e, F, fn, a, st, t):
    ty = e.argty(fn, 0)
    v = a[0]
    if ty.get("def") == OPT:
        return ite(is_some(v), CONT(some_val(v)), BRK(NONE)), st
    if ty.get("def") == RES:
        er = ERR if e.collapse else err_val(v)
        return ite(is_err(v), BRK(ERRV(er)), CONT(ok_val(v))), st
    return None


@reg("std::ops::FromResidual::from_residual")
def _fromres(e, F, fn, a, st, t):
    d = e.destty(F, t)
    if d.get("def") == OPT:
        return NONE, st
    if d.get("def") == RES:
        if e.collapse:
            return ERRV(ERR), st
        return ERRV(conv(e, err_val(a[0]), e.prog.types[d["args"][1]] if len(d.get("args", [])) > 1 else {"s": "?"})), st
    return None


def conv(e, x, ty):
    if ty.get("s", "").endswith("errors::Error"):
        return x
    return x


@reg("std::convert::Into::into", "std::convert::From::from")
def _into(e, F, fn, a, st, t):
    if fn["decl"].endswith("Into::into"):
        ft, tt = e.argty(fn, 0), e.argty(fn, 1)
    else:
        if fn["local"] and fn["path"] in e.prog.bodies:
            return None
        tt, ft = e.argty(fn, 0), e.argty(fn, 1)
    if ft["s"] == tt["s"]:
        return a[0], st
    key = (ft["s"], tt["s"])
    it = e.prog.from_impls.get(key)
    if it is None:
        st_ = re.sub(r"'[a-z_]+ ?", "", key[0]), re.sub(r"'[a-z_]+ ?", "", key[1])
        for (x, y), v in e.prog.from_impls.items():
            if (re.sub(r"'[a-z_]+ ?", "", x), re.sub(r"'[a-z_]+ ?", "", y)) == st_:
                it = v
    if it:
        if e.is_opaque(it):
            return e.opaque_call(it, a, st)
        b = e.prog.bodies.get(it)
        if b is not None:
            if tt["s"] == "errors::Error" and e.collapse:
                return ERR, st
            return e.call_body(b, a, st)
    if tt["s"] == "errors::Error":
        return (ERR if e.collapse else a[0]), st
    if ft["s"] in WID and tt["s"] in WID:
        return cast(ft["s"], tt["s"], a[0]), st
    if ft["s"] == "bool" and tt["s"] in WID:
        return ite(a[0], INT(1), INT(0)), st
    if tt.get("def") == OPT and e.prog.types[tt["args"][0]]["s"] == ft["s"]:
        return SOME(a[0]), st
    strs = ("str", "String", "Cow", "Path", "OsStr", "Box", "Rc", "Arc", "Vec", "[")
    if any(x in ft["s"] for x in strs) and any(x in tt["s"] for x in strs):
        return e.deref(a[0], st), st
    return None


@reg("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _tryinto(e, F, fn, a, st, t):
    if fn["local"]:
        return None
    i, o = (0, 1) if fn["decl"].endswith("try_into") else (1, 0)
    ft, tt = e.argty(fn, i)["s"], e.argty(fn, o)["s"]
    if ft in WID and tt in WID:
        w = cast(ft, tt, a[0])
        if ft[0] == "u" and tt[0] == "u":
            if WID[tt] >= WID[ft]:
                return OK(w), st
            return ite(lt(a[0], INT(1 << WID[tt])), OK(w), ERRV(ERR)), st
    return None


def opt_unary(name):
    return reg(O + name)


@reg(O + "is_some")
def _m(e, F, fn, a, st, t):
    return is_some(e.deref(a[0], st)), st


@reg(O + "is_none")
def _m(e, F, fn, a, st, t):
    return NOT(is_some(e.deref(a[0], st))), st


@reg(R + "is_ok")
def _m(e, F, fn, a, st, t):
    return NOT(is_err(e.deref(a[0], st))), st


@reg(R + "is_err")
def _m(e, F, fn, a, st, t):
    return is_err(e.deref(a[0], st)), st


@reg(O + "map")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[1], [some_val(a[0])], st)
    return ite(c, SOME(v), NONE), st


@reg(O + "inspect")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[1], [some_val(a[0])], st)
    return a[0], st


@reg(O + "and_then")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[1], [some_val(a[0])], st)
    return ite(c, v, NONE), st


@reg(O + "and")
def _m(e, F, fn, a, st, t):
    return ite(is_some(a[0]), a[1], NONE), st


@reg(O + "or")
def _m(e, F, fn, a, st, t):
    return ite(is_some(a[0]), a[0], a[1]), st


@reg(O + "or_else")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(NOT(c), a[1], [], st)
    return ite(c, a[0], v), st


@reg(O + "is_some_and")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[1], [some_val(a[0])], st)
    return ite(c, v, FALSE), st


@reg(O + "is_none_or")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[1], [some_val(a[0])], st)
    return ite(c, v, TRUE), st


@reg(O + "filter")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[1], [some_val(a[0])], st)
    return ite(AND(c, v), a[0], NONE), st


@reg(O + "unwrap_or")
def _m(e, F, fn, a, st, t):
    return ite(is_some(a[0]), some_val(a[0]), a[1]), st


@reg(O + "unwrap_or_else")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(NOT(c), a[1], [], st)
    return ite(c, some_val(a[0]), v), st


@reg(O + "unwrap_or_default")
def _m(e, F, fn, a, st, t):
    d, st = e.default_of(e.argty(fn, 0), st)
    return ite(is_some(a[0]), some_val(a[0]), d), st


@reg(O + "map_or")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(c, a[2], [some_val(a[0])], st)
    return ite(c, v, a[1]), st


@reg(O + "map_or_else")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    d, st = e.cond_apply(NOT(c), a[1], [], st)
    v, st = e.cond_apply(c, a[2], [some_val(a[0])], st)
    return ite(c, v, d), st


@reg(O + "ok_or")
def _m(e, F, fn, a, st, t):
    er = ERR if e.collapse else a[1]
    return ite(is_some(a[0]), OK(some_val(a[0])), ERRV(er)), st


@reg(O + "ok_or_else")
def _m(e, F, fn, a, st, t):
    c = is_some(a[0])
    v, st = e.cond_apply(NOT(c), a[1], [], st)
    er = ERR if e.collapse else v
    return ite(c, OK(some_val(a[0])), ERRV(er)), st


@reg("std::option::Option::<std::result::Result<T, E>>::transpose")
def _m(e, F, fn, a, st, t):
    x = some_val(a[0])
    er = ERR if e.collapse else err_val(x)
    return ite(is_some(a[0]), ite(is_err(x), ERRV(er), OK(SOME(ok_val(x)))), OK(NONE)), st


@reg("std::result::Result::<std::option::Option<T>, E>::transpose")
def _m(e, F, fn, a, st, t):
    x = ok_val(a[0])
    er = ERR if e.collapse else err_val(a[0])
    return ite(is_err(a[0]), SOME(ERRV(er)), ite(is_some(x), SOME(OK(some_val(x))), NONE)), st


@reg("std::option::Option::<std::option::Option<T>>::flatten")
def _m(e, F, fn, a, st, t):
    return ite(is_some(a[0]), some_val(a[0]), NONE), st


@reg(O + "zip")
def _m(e, F, fn, a, st, t):
    return ite(AND(is_some(a[0]), is_some(a[1])),
               SOME(ADT("tuple", 0, None, (some_val(a[0]), some_val(a[1])))), NONE), st


@reg(O + "unwrap", O + "expect")
def _m(e, F, fn, a, st, t):
    e.unwrap_obl(F, fn, is_some(a[0]), st, t)
    return some_val(a[0]), st


@reg(O + "take")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return v, e.setref(a[0], NONE, st)


@reg(O + "replace")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return v, e.setref(a[0], SOME(a[1]), st)


@reg(O + "insert")
def _m(e, F, fn, a, st, t):
    st = e.setref(a[0], SOME(a[1]), st)
    if a[0].op == "mref":
        return raw("mref", a[0].a[0], tuple(a[0].a[1]) + (("f", 1, 0, (OPT, 1)),)), st
    return None


@reg(O + "as_mut", O + "as_deref_mut")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    if a[0].op == "mref":
        r = raw("mref", a[0].a[0], tuple(a[0].a[1]) + (("f", 1, 0, (OPT, 1)),))
        return ite(is_some(v), SOME(r), NONE), st
    return v, st


@reg(O + "get_or_insert_with", O + "get_or_insert")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    if a[0].op != "mref":
        return None
    c = is_some(v)
    if fn["path"].endswith("with"):
        d, st = e.cond_apply(NOT(c), a[1], [], st)
    else:
        d = a[1]
    st = e.setref(a[0], SOME(ite(c, some_val(v), d)), st)
    return raw("mref", a[0].a[0], tuple(a[0].a[1]) + (("f", 1, 0, (OPT, 1)),)), st


@reg(O + "iter", O + "into_iter", "<std::option::Option<T> as std::iter::IntoIterator>::into_iter")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return raw("iter", raw("optseq", v), ()), st


@reg(R + "map")
def _m(e, F, fn, a, st, t):
    c = NOT(is_err(a[0]))
    v, st = e.cond_apply(c, a[1], [ok_val(a[0])], st)
    er = ERR if e.collapse else err_val(a[0])
    return ite(c, OK(v), ERRV(er)), st


@reg(R + "map_err")
def _m(e, F, fn, a, st, t):
    c = is_err(a[0])
    v, st = e.cond_apply(c, a[1], [err_val(a[0])], st)
    return ite(c, ERRV(ERR if e.collapse else v), OK(ok_val(a[0]))), st


@reg(R + "and_then")
def _m(e, F, fn, a, st, t):
    c = NOT(is_err(a[0]))
    v, st = e.cond_apply(c, a[1], [ok_val(a[0])], st)
    er = ERR if e.collapse else err_val(a[0])
    return ite(c, v, ERRV(er)), st


@reg(R + "or_else")
def _m(e, F, fn, a, st, t):
    c = is_err(a[0])
    v, st = e.cond_apply(c, a[1], [err_val(a[0])], st)
    return ite(c, v, OK(ok_val(a[0]))), st


@reg(R + "ok")
def _m(e, F, fn, a, st, t):
    return ite(is_err(a[0]), NONE, SOME(ok_val(a[0]))), st


@reg(R + "err")
def _m(e, F, fn, a, st, t):
    return ite(is_err(a[0]), SOME(err_val(a[0])), NONE), st


@reg(R + "unwrap", R + "expect")
def _m(e, F, fn, a, st, t):
    e.unwrap_obl(F, fn, NOT(is_err(a[0])), st, t)
    return ok_val(a[0]), st


@reg(R + "unwrap_or")
def _m(e, F, fn, a, st, t):
    return ite(is_err(a[0]), a[1], ok_val(a[0])), st


@reg(R + "unwrap_or_else")
def _m(e, F, fn, a, st, t):
    c = is_err(a[0])
    v, st = e.cond_apply(c, a[1], [err_val(a[0])], st)
    return ite(c, v, ok_val(a[0])), st


@reg(R + "unwrap_or_default")
def _m(e, F, fn, a, st, t):
    d, st = e.default_of(e.argty(fn, 0), st)
    return ite(is_err(a[0]), d, ok_val(a[0])), st


@reg("core::bool::<impl bool>::then", "std::primitive::bool::then")
def _m(e, F, fn, a, st, t):
    v, st = e.cond_apply(a[0], a[1], [], st)
    return ite(a[0], SOME(v), NONE), st


@reg("core::bool::<impl bool>::then_some")
def _m(e, F, fn, a, st, t):
    return ite(a[0], SOME(a[1]), NONE), st


# ---- closures
@reg("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _m(e, F, fn, a, st, t):
    f = e.deref(a[0], st)
    tup = a[1]
    if tup is UNIT:
        xs = []
    elif tup.op == "adt":
        xs = list(tup.a[3])
    else:
        return None
    return e.apply(f, xs, st, F, t)


# ---- default
@reg("std::default::Default::default")
def _m(e, F, fn, a, st, t):
    return e.default_of(e.argty(fn, 0), st)


# ---- Vec
@reg("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def _m(e, F, fn, a, st, t):
    return raw("vecnil"), st


@reg("std::vec::Vec::<T, A>::push")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return UNIT, e.setref(a[0], lift(lambda y: raw("push", y, a[1]), v), st)


@reg("std::vec::Vec::<T, A>::clear")
def _m(e, F, fn, a, st, t):
    return UNIT, e.setref(a[0], raw("vecnil"), st)


@reg("std::vec::Vec::<T, A>::extend_from_slice")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return UNIT, e.setref(a[0], lift(lambda y: mkext(y, e.deref(a[1], st)), v), st)


@reg("std::vec::Vec::<T, A>::append")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    w = e.deref(a[1], st)
    st = e.setref(a[0], lift(lambda y: mkext(y, w), v), st)
    return UNIT, e.setref(a[1], raw("vecnil"), st)


def is_map(ty):
    return re.match(r"&?('[a-z_]+ )?(mut )?std::collections::(hash_map::)?(Hash|BTree)Map<", ty["s"]) is not None


@reg("std::iter::Extend::extend")
def _m(e, F, fn, a, st, t):
    ty = e.argty(fn, 0)["s"]
    if "HashMap<" in ty or "BTreeMap<" in ty:
        it = e.deref(a[1], st)
        if is_map(e.argty(fn, 2)) and it.op not in ("iter", "itlv", "itnext"):
            it = raw("iter", raw("mapiter", it), ())
        it = e.iter_of(it)
        tag = ("tuple", 2)
        v, st = accum(e, it, e.deref(a[0], st), lambda acc, x, s: (raw("mapput", acc, fld(x, None, 0, tag), fld(x, None, 1, tag)), s), st)
        return UNIT, e.setref(a[0], v, st)
    if "HashSet<" in ty or "BTreeSet<" in ty:
        it = e.iter_of(e.deref(a[1], st))
        v, st = accum(e, it, e.deref(a[0], st), lambda acc, x, s: (raw("setput", acc, x), s), st)
        return UNIT, e.setref(a[0], v, st)
    if ty == "std::string::String":
        it = e.iter_of(e.deref(a[1], st))
        v, st = accum(e, it, e.deref(a[0], st), lambda acc, x, s: (strcat(acc, x), s), st)
        return UNIT, e.setref(a[0], v, st)
    if "Vec<" in ty:
        it = e.iter_of(e.deref(a[1], st))
        st = st.copy()
        c = e.newcell(st, e.deref(a[0], st))

        def step(x, s1):
            s1 = s1.copy()
            s1.env[c] = raw("push", s1.env[c], under(x, s1.pc))
            return [s1], []
        v, st2 = e.consume(it, step, st, lambda s: s.env[c])
        st2 = st2.copy()
        st2.env.pop(c, None)
        return UNIT, e.setref(a[0], v, st2)
    return None


@reg("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len",
     "std::string::String::len", "std::iter::ExactSizeIterator::len")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    if v.op == "iter":
        v = e.base_of(v, st)
    return e.length(v), st


@reg("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty",
     "std::string::String::is_empty")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)

    def f(x):
        if x.op == "str":
            return BOOL(x.a[0] == "")
        return eq(e.length(x), INT(0))
    return lift(f, v), st


@reg("core::slice::<impl [T]>::first")
def _m(e, F, fn, a, st, t):
    return lift(e.seq_first, e.deref(a[0], st)), st


@reg("core::slice::<impl [T]>::last")
def _m(e, F, fn, a, st, t):
    def f(v):
        n = e.length(v)
        return ite(eq(n, INT(0)), NONE, SOME(raw("idx", v, binop("Sub", "usize", n, INT(1)))))
    return lift(f, e.deref(a[0], st)), st


@reg("core::slice::<impl [T]>::get")
def _m(e, F, fn, a, st, t):
    i = a[1]
    v = e.deref(a[0], st)
    if i.op == "adt" and "Range" in i.a[0]:
        nm = i.a[0].split("::")[-1]
        n = e.length(v)
        if nm == "Range":
            lo, hi = i.a[3]
        elif nm == "RangeFrom":
            lo, hi = i.a[3][0], n
        elif nm == "RangeTo":
            lo, hi = INT(0), i.a[3][0]
        else:
            return None
        ok = AND(NOT(lt(hi, lo)), NOT(lt(n, hi)))
        return ite(ok, SOME(mksub(e, v, lo, hi)), NONE), st
    return e.seq_get(v, i), st


@reg("std::ops::Index::index")
def _m(e, F, fn, a, st, t):
    if fn["local"]:
        return None
    return e.index_model(F, fn, a, st, t)


@reg("std::ops::IndexMut::index_mut")
def _m(e, F, fn, a, st, t):
    ty = e.argty(fn, 0)["s"].replace("&mut ", "").replace("'_ ", "")
    if fn["local"] or a[0].op != "mref" or not ty.startswith(("[", "std::vec::Vec<")):
        return None
    v, i = e.deref(a[0], st), a[1]
    n = e.length(v)
    if i.op == "adt":
        nm = i.a[0].split("::")[-1]
        if nm not in ("Range", "RangeFrom", "RangeTo", "RangeFull"):
            return None
        lo = i.a[3][0] if nm in ("Range", "RangeFrom") else INT(0)
        hi = i.a[3][-1] if nm in ("Range", "RangeTo") else n
        q = ("sl", lo, hi)
    elif fn["path"].endswith("usize>>::index_mut"):
        q = ("i", i)
    else:
        return None
    e.add_obl(F, "index", t, st, None, {"base": v, "index": i}, e.argty(fn, 0)["s"], fn)
    return raw("mref", a[0].a[0], tuple(a[0].a[1]) + (q,)), st


@reg("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _m(e, F, fn, a, st, t):
    if a[0].op != "mref":
        return None
    d, s = e.deref(a[0], st), e.deref(a[1], st)
    e.add_obl(F, "len", t, st, eq(e.length(d), e.length(s)), {"base": d, "index": s}, None, fn)
    q = a[0].a[1][-1] if a[0].a[1] else None
    if q is None or q[0] != "sl":
        n = e.length(d)
        if n.op != "int" or n.a[0] > 64:
            return UNIT, e.setref(a[0], s, st)
        s = ADT("array", 0, None, tuple(e.index(s, INT(k)) for k in range(n.a[0])))
    return UNIT, e.setref(a[0], s, st)


def elements(e, d):
    """the elements of a short array or slice of known length"""
    n = e.length(d)
    return [e.index(d, INT(k)) for k in range(n.a[0])] if n.op == "int" and n.a[0] <= 64 else None


@reg("core::slice::<impl [T]>::reverse")
def _m(e, F, fn, a, st, t):
    xs = elements(e, e.deref(a[0], st)) if a[0].op == "mref" else None
    if xs is None:
        return None
    return UNIT, e.setref(a[0], ADT("array", 0, None, tuple(reversed(xs))), st)


@reg("core::slice::<impl [T]>::swap")
def _m(e, F, fn, a, st, t):
    xs = elements(e, e.deref(a[0], st)) if a[0].op == "mref" else None
    if xs is None or a[1].op != "int" or a[2].op != "int" or not (a[1].a[0] < len(xs) and a[2].a[0] < len(xs)):
        return None
    i, j = a[1].a[0], a[2].a[0]
    xs[i], xs[j] = xs[j], xs[i]
    return UNIT, e.setref(a[0], ADT("array", 0, None, tuple(xs)), st)


@reg("core::slice::<impl [T]>::iter", "std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter_mut")
def _m(e, F, fn, a, st, t):
    if fn["local"]:
        return None
    ty = e.argty(fn, 0)
    v = a[0]
    if v.op == "mref" and v.a[0] and (fn["path"].endswith("iter_mut") or ty["k"] == "ref" and ty.get("mut")):
        k = e.deref(v, st)
        if k.op == "adt" and k.a[0] == "array" and len(k.a[3]) <= 8:
            return raw("iter", ADT("array", 0, None, tuple(raw("mref", v.a[0], tuple(v.a[1]) + (("i", INT(i)),)) for i in range(len(k.a[3])))), ()), st
    if v.op == "mref":
        v = e.deref(v, st)
        if ty["k"] == "ref" and ty.get("mut") and v.op not in ("iter", "itlv", "itnext"):
            return None
    s = ty["s"]
    if "HashMap<" in s.split("Vec<")[0][:40] and v.op not in ("iter", "itlv", "itnext"):
        return raw("iter", raw("mapiter", v), ()), st
    if s.lstrip("&").startswith("std::option::Option<"):
        return raw("iter", raw("optseq", v), ()), st
    return e.iter_of(v), st


@reg("core::slice::<impl [T]>::chunks_exact")
def _m(e, F, fn, a, st, t):
    e.ext_obl(F, fn, a, st, t)
    return raw("iter", raw("chunks_exact", e.deref(a[0], st), a[1]), ()), st


@reg("core::slice::<impl [T]>::chunks")
def _m(e, F, fn, a, st, t):
    e.ext_obl(F, fn, a, st, t)
    return raw("iter", raw("chunks", e.deref(a[0], st), a[1]), ()), st


@reg("core::str::<impl str>::chars")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("chars", e.deref(a[0], st)), ()), st


# ---- vec![..]
@reg("std::boxed::Box::<T>::new_uninit")
def _m(e, F, fn, a, st, t):
    st = st.copy()
    c = e.newcell(st, BOT)
    return raw("mref", c, ()), st


@reg("std::boxed::box_assume_init_into_vec_unsafe")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    while v.op == "adt" and v.a[0] != "array" and len(v.a[3]) >= 1:
        v = [x for x in v.a[3] if x is not BOT][-1]
    return vec_of_array(v), st


def vec_of_array(v):
    if v.op == "adt" and v.a[0] == "array":
        r = raw("vecnil")
        for x in v.a[3]:
            r = raw("push", r, x)
        return r
    return v


@reg("std::vec::from_elem")
def _m(e, F, fn, a, st, t):
    return raw("repeat", a[0], a[1]), st


# ---- iterator adapters
I = "std::iter::Iterator::"


@reg(I + "map")
def _m(e, F, fn, a, st, t):
    return e.stage(e.iter_of(a[0]), raw("st_map", a[1])), st


@reg(I + "filter")
def _m(e, F, fn, a, st, t):
    return e.stage(e.iter_of(a[0]), raw("st_filter", a[1])), st


@reg(I + "filter_map")
def _m(e, F, fn, a, st, t):
    return e.stage(e.iter_of(a[0]), raw("st_fmap", a[1])), st


@reg(I + "inspect")
def _m(e, F, fn, a, st, t):
    return e.stage(e.iter_of(a[0]), raw("st_inspect", a[1])), st


@reg(I + "flatten")
def _m(e, F, fn, a, st, t):
    # element type decides
    k = flat_kind(e, fn)
    it = e.iter_of(a[0])
    if k == "opt":
        return e.stage(it, raw("st_flatopt")), st
    if k == "res":
        return e.stage(it, raw("st_flatres")), st
    return raw("iter", raw("flat", e.base_of(e.stage(it, raw("st_seq")), st)), ()), st


def flat_kind(e, fn):
    s = e.argty(fn, 0)["s"]
    m = re.search(r"IntoIter<(std::option::Option|std::result::Result)<", s)
    if m:
        return "opt" if "option" in m.group(1) else "res"
    cl = re.findall(r"\{closure@([^}]*)\}", s)
    ty = e.argty(fn, 0)
    # last adapter's closure result type
    r = closure_ret(e, ty)
    if r is not None:
        if r.get("def") == OPT:
            return "opt"
        if r.get("def") == RES:
            return "res"
    return "seq"


def closure_ret(e, ty):
    """return type of the outermost closure of an iterator adapter type"""
    for i in reversed(ty.get("args", []) or []):
        x = e.prog.types[i]
        if x["k"] == "closure":
            b = e.prog.bodies.get(x["def"])
            if b:
                return b.lty(0)
    return None


@reg(I + "flat_map")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(a[0])
    f = a[1]
    r = None
    if f.op == "clo":
        b = e.prog.bodies.get(f.a[0])
        r = b.lty(0) if b else None
    elif f.op == "fn":
        info = e.fninfo[f.a]
        b = e.prog.bodies.get(info["path"])
        r = b.lty(0) if b else None
    it = e.stage(it, raw("st_map", f))
    if r is not None and r.get("def") == OPT:
        return e.stage(it, raw("st_flatopt")), st
    if r is not None and r.get("def") == RES:
        return e.stage(it, raw("st_flatres")), st
    return raw("iter", raw("flat", e.base_of(e.stage(it, raw("st_seq")), st)), ()), st


@reg(I + "enumerate")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("enum", e.base_of(e.iter_of(a[0]), st)), ()), st


@reg(I + "zip")
def _m(e, F, fn, a, st, t):
    return raw("iter", zipped(e, e.base_of(e.iter_of(a[0]), st), e.base_of(e.iter_of(e.deref(a[1], st)), st), fn), ()), st


def zipped(e, x, y, fn):
    """x zipped with all numbers from n on is x enumerated, n added to the position"""
    i = 0 if x.op == "rangefrom" else 1 if y.op == "rangefrom" else None
    ty = re.search(r"RangeFrom<(\w+)>", " ".join(e.argty(fn, j)["s"] for j in range(4)) if i is not None else "")
    if i is None or x.op == y.op or not ty or ty.group(1) != "usize":
        return raw("zip", x, y)
    d = e.depth
    s = raw("enum", y if i == 0 else x)
    el, _ = e.elem_of(s, raw("el", d))
    k = binop("Add", "usize", el.a[3][0], (x if i == 0 else y).a[0])
    return mkgen(fuse_src(s), d, TRUE, ADT("tuple", 0, None, (k, el.a[3][1]) if i == 0 else (el.a[3][1], k)))


def adapter(name):
    def f(e, F, fn, a, st, t):
        return raw("iter", raw(name, e.base_of(e.iter_of(e.deref(a[0], st)), st), *[e.deref(x, st) for x in a[1:]]), ()), st
    return f


for _n in ("skip", "take", "rev", "step_by", "skip_while", "take_while", "chain", "cycle", "map_while", "scan"):
    if _n == "chain":
        continue
    TABLE[I + _n] = adapter(_n)


@reg(I + "chain")
def _m(e, F, fn, a, st, t):
    x, y = e.base_of(e.iter_of(a[0]), st), e.base_of(e.iter_of(e.deref(a[1], st)), st)
    # one sequence after the other: the same as appending them in a vector
    return raw("iter", raw("chain", x, y) if endless_src(x) or endless_src(y) else mkext(x, y), ()), st


@reg("core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::rchunks")
def _m(e, F, fn, a, st, t):
    return None


def sort_by(e, b, keyf, st):
    d = e.depth
    e.depth += 1
    x, g = e.elem(b, d)
    k = keyf(x)
    e.depth -= 1
    return raw("sortk", b, mkgen(fuse_src(b), d, TRUE, k))


def dedup_of(e, b, same):
    """keeps the first of neighbours that are the same; same(kept, next)"""
    d = e.depth
    e.depth += 1
    x = raw("fld", raw("el", d), None, 0, ("tuple", 2))
    y = raw("fld", raw("el", d), None, 1, ("tuple", 2))
    k = same(x, y)
    e.depth -= 1
    return raw("dedup", b, mkgen(UNIT, d, TRUE, k))


# equal elements of these types cannot be told apart
PLAIN_ORD = re.compile(r"^&?('[a-z_]+ )?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|char|bool|str|std::string::String|std::path::PathBuf|"
                       r"std::path::Path|std::ffi::OsString)$")


def plain_ord(e, fn):
    return PLAIN_ORD.match(e.argty(fn, 0)["s"]) is not None


def by_comparison(e, cmp, b):
    """the key when a comparison function compares one key of both elements, else None"""
    x, y = raw("sym", "cmp!x"), raw("sym", "cmp!y")
    d = e.depth
    e.depth += 1
    s, _ = e.elem(b, d)
    e.depth -= 1
    r = cmp(x, y)
    o = "std::cmp::Ordering"
    if r.op == "call" and str(r.a[0]).endswith(("::cmp", "Ord>::cmp")) and len(r.a) == 3:
        p, q = r.a[1:]
    elif r.op == "ite" and r.a[0].op == "lt" and len(leaves(r)) == 3:
        p, q = r.a[0].a
        if r is not ite(lt(p, q), ADT(o, 0, "Less", ()), ite(eq(p, q), ADT(o, 1, "Equal", ()), ADT(o, 2, "Greater", ()))):
            return None
    else:
        return None
    if contains(p, lambda z: z is y) or subst(p, {x: y}) is not q:
        return None
    return lambda z: subst(p, {x: z})


def sorter(name, inplace, kind, stable):
    def m(e, F, fn, a, st, t):
        if not stable and not (kind == "elem" and plain_ord(e, fn)):
            return None
        if inplace:
            v = e.deref(a[0], st)
        else:
            v = e.base_of(e.iter_of(a[0]), st)

        def f(y):
            b = e.base_of(e.iter_of(y), st) if inplace else y
            clo = lambda *xs: e.apply(a[1], list(xs), St(TRUE, dict(st.env)))[0]
            if kind == "elem":
                key = lambda x: x
            elif kind == "key":
                key = clo
            else:
                key = by_comparison(e, clo, b)
                if key is None:
                    return None
            return sort_by(e, b, key, st)
        if any(f(y) is None for y in leaves(v) if y is not BOT):
            return None
        r = lift(f, v)
        if inplace:
            return UNIT, e.setref(a[0], r, st)
        return raw("iter", r, ()), st
    TABLE[name] = m


for _p in ("std::slice::<impl [T]>::", "core::slice::<impl [T]>::"):
    for _n, _k, _s in (("sort", "elem", True), ("sort_by_key", "key", True), ("sort_by_cached_key", "key", True), ("sort_by", "cmp", True),
                       ("sort_unstable", "elem", False)):
        sorter(_p + _n, True, _k, _s)
for _n, _k, _s in (("sorted", "elem", True), ("sorted_by_key", "key", True), ("sorted_by_cached_key", "key", True), ("sorted_by", "cmp", True),
                   ("sorted_unstable", "elem", False)):
    sorter("itertools::Itertools::" + _n, False, _k, _s)


def deduper(name, inplace, kind):
    def m(e, F, fn, a, st, t):
        clo = lambda *xs: e.apply(a[1], list(xs), St(TRUE, dict(st.env)))[0]
        if kind == "by":
            # Vec passes (next, kept), itertools (kept, next)
            same = (lambda x, y: clo(y, x)) if inplace else clo
        elif kind == "key":
            same = lambda x, y: eq(clo(x), clo(y))
        else:
            same = eq

        def f(y):
            return dedup_of(e, e.base_of(e.iter_of(y), st) if inplace else y, same)
        if inplace:
            return UNIT, e.setref(a[0], lift(f, e.deref(a[0], st)), st)
        return raw("iter", f(e.base_of(e.iter_of(a[0]), st)), ()), st
    TABLE[name] = m


deduper("std::vec::Vec::<T, A>::dedup_by", True, "by")
deduper("std::vec::Vec::<T, A>::dedup_by_key", True, "key")
deduper("std::vec::Vec::<T, A>::dedup", True, "elem")
deduper("itertools::Itertools::dedup_by", False, "by")
deduper("itertools::Itertools::dedup", False, "elem")


# ---- iterator consumers
@reg(I + "next")
def _m(e, F, fn, a, st, t):
    if fn["local"]:
        return None
    return e.next(a[0], st)


@reg(I + "collect")
def _m(e, F, fn, a, st, t):
    return e.collect(e.iter_of(e.deref(a[0], st)), e.argty(fn, 1), st)


@reg("itertools::Itertools::collect_vec")
def _m(e, F, fn, a, st, t):
    return e.collect(e.iter_of(e.deref(a[0], st)), {"s": "std::vec::Vec<", "k": "adt"}, st)


@reg("itertools::Itertools::try_collect")
def _m(e, F, fn, a, st, t):
    return e.collect(e.iter_of(e.deref(a[0], st)), e.destty(F, t), st)


def rest_after(e, a, st):
    if a.op == "mref":
        it = e.deref(a, st)
        if it.op == "iter":
            return e.setref(a, raw("itrest", it), st)
    return st


@reg(I + "find", "<std::slice::Iter<'a, T> as std::iter::Iterator>::find")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))

    def step(x, s1):
        c, s1 = e.apply(a[1], [x], s1)
        c = under(c, s1.pc)
        return [s1.fork(NOT(c))], [(SOME(x), s1.fork(c), False)]
    v, st = e.consume(it, step, st, lambda s: NONE)
    return v, rest_after(e, a[0], st)


@reg(I + "find_map")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))

    def step(x, s1):
        r, s1 = e.apply(a[1], [x], s1)
        c = under(is_some(r), s1.pc)
        return [s1.fork(NOT(c))], [(SOME(under(some_val(r), AND(s1.pc, c))), s1.fork(c), False)]
    v, st = e.consume(it, step, st, lambda s: NONE)
    return v, rest_after(e, a[0], st)


@reg(I + "any")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))

    def step(x, s1):
        c, s1 = e.apply(a[1], [x], s1)
        c = under(c, s1.pc)
        return [s1.fork(NOT(c))], [(TRUE, s1.fork(c), False)]
    return e.consume(it, step, st, lambda s: FALSE)


@reg(I + "all")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))

    def step(x, s1):
        c, s1 = e.apply(a[1], [x], s1)
        c = under(c, s1.pc)
        return [s1.fork(c)], [(FALSE, s1.fork(NOT(c)), False)]
    return e.consume(it, step, st, lambda s: TRUE)


@reg(I + "position", "<std::slice::Iter<'a, T> as std::iter::Iterator>::position")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))
    b = raw("enum", e.base_of(it, st))

    def step(x, s1):
        i, y = fld(x, None, 0, ("tuple", 2)), fld(x, None, 1, ("tuple", 2))
        c, s1 = e.apply(a[1], [y], s1)
        c = under(c, s1.pc)
        return [s1.fork(NOT(c))], [(SOME(i), s1.fork(c), False)]
    return e.consume(raw("iter", b, ()), step, st, lambda s: NONE)


def accum(e, it, init, stepf, st):
    st = st.copy()
    c = e.newcell(st, init)

    def step(x, s1):
        v, s1 = stepf(s1.env[c], x, s1)
        s1 = s1.copy()
        s1.env[c] = v
        return [s1], []
    v, st2 = e.consume(it, step, st, lambda s: s.env[c])
    st2 = st2.copy()
    st2.env.pop(c, None)
    return v, st2


@reg(I + "sum")
def _m(e, F, fn, a, st, t):
    ty = e.argty(fn, 1)["s"]
    def step(acc, x, s):
        if ty in WID:
            e.arith_obl(F, "Add", ty, acc, x, s, t)
        return binop("Add", ty, acc, x), s
    return accum(e, e.iter_of(e.deref(a[0], st)), INT(0) if ty in WID else raw("float", 0.0), step, st)


@reg(I + "count")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))
    return accum(e, it, INT(0), lambda acc, x, s: (binop("Add", "usize", acc, INT(1)), s), st)


@reg(I + "fold")
def _m(e, F, fn, a, st, t):
    return accum(e, e.iter_of(e.deref(a[0], st)), a[1], lambda acc, x, s: e.apply(a[2], [acc, x], s), st)


@reg(I + "try_fold")
def _m(e, F, fn, a, st, t):
    d = e.destty(F, t)
    if d.get("def") != RES:
        return None
    it = e.iter_of(e.deref(a[0], st))
    st = st.copy()
    c = e.newcell(st, a[1])

    def step(x, s1):
        v, s1 = e.apply(a[2], [s1.env[c], x], s1)
        er = under(is_err(v), s1.pc)
        s2 = s1.fork(NOT(er))
        s2.env[c] = under(ok_val(v), s2.pc)
        return [s2], ([(ERRV(ERR if e.collapse else err_val(v)), s1.fork(er), True)] if er is not FALSE else [])
    v, st2 = e.consume(it, step, st, lambda s: OK(s.env[c]))
    st2 = st2.copy()
    st2.env.pop(c, None)
    return v, st2


@reg(I + "for_each")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))

    def step(x, s1):
        _v, s1 = e.apply(a[1], [x], s1)
        return [s1], []
    return e.consume(it, step, st, lambda s: UNIT)


@reg(I + "try_for_each")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))
    d = e.destty(F, t)
    if d.get("def") != RES:
        return None

    def step(x, s1):
        v, s1 = e.apply(a[1], [x], s1)
        er = under(is_err(v), s1.pc)
        return [s1.fork(NOT(er))], ([(ERRV(ERR if e.collapse else err_val(v)), s1.fork(er), True)] if er is not FALSE else [])
    return e.consume(it, step, st, lambda s: OK(UNIT))


@reg(I + "last")
def _m(e, F, fn, a, st, t):
    return accum(e, e.iter_of(e.deref(a[0], st)), NONE, lambda acc, x, s: (SOME(x), s), st)


@reg(I + "nth")
def _m(e, F, fn, a, st, t):
    it = e.deref(a[0], st)
    if it.op != "iter":
        return None
    b = e.base_of(it, st)
    st = e.setref(a[0], raw("iter", raw("skip", b, binop("Add", "usize", a[1], INT(1))), ()), st) if a[0].op == "mref" else st
    return e.seq_get(b, a[1]), st


# ---- maps & sets
H = "std::collections::HashMap::<K, V, S, A>::"


@reg("std::collections::HashMap::<K, V>::new", "std::collections::BTreeMap::<K, V>::new",
     "std::collections::HashMap::<K, V>::with_capacity")
def _m(e, F, fn, a, st, t):
    return raw("mapnil"), st


@reg("std::collections::HashSet::<T>::new", "std::collections::HashSet::<T>::with_capacity",
     "std::collections::BTreeSet::<T>::new")
def _m(e, F, fn, a, st, t):
    return raw("setnil"), st


@reg(H + "insert")
def _m(e, F, fn, a, st, t):
    m = e.deref(a[0], st)
    k = e.deref(a[1], st)
    return e.mapget(m, k), e.setref(a[0], lift(lambda y: mapput(y, k, a[2]), m), st)


@reg(H + "get")
def _m(e, F, fn, a, st, t):
    return e.mapget(e.deref(a[0], st), e.deref(a[1], st)), st


@reg(H + "contains_key")
def _m(e, F, fn, a, st, t):
    return is_some(e.mapget(e.deref(a[0], st), e.deref(a[1], st))), st


@reg(H + "values", H + "into_values")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("mapvals", e.deref(a[0], st)), ()), st


@reg(H + "keys", H + "into_keys")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("mapkeys", e.deref(a[0], st)), ()), st


@reg(H + "iter")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("mapiter", e.deref(a[0], st)), ()), st


@reg(H + "is_empty", "std::collections::HashSet::<T, S, A>::is_empty")
def _m(e, F, fn, a, st, t):
    return eq(e.length(e.deref(a[0], st)), INT(0)), st


@reg(H + "len", "std::collections::HashSet::<T, S, A>::len")
def _m(e, F, fn, a, st, t):
    return e.length(e.deref(a[0], st)), st


@reg(H + "entry")
def _m(e, F, fn, a, st, t):
    return raw("entry", a[0], e.deref(a[1], st)), st


EN = "std::collections::hash_map::Entry::<'a, K, V>::"


def entry_ref(e, en, dflt):
    m, k = en.a
    if m.op != "mref":
        return None
    return raw("mref", m.a[0], tuple(m.a[1]) + (("key", k, dflt),))


def insert_absent(e, en, v, st):
    m, k = en.a
    old = e.deref(m, st)
    new = lift(lambda y: ite(is_some(e.mapget(y, k)), y, raw("mapput", y, k, v)), old)
    return e.setref(m, new, st)


@reg(EN + "or_default")
def _m(e, F, fn, a, st, t):
    if a[0].op != "entry":
        return None
    d, st = e.default_of(e.argty(fn, 1), st)
    r = entry_ref(e, a[0], d)
    return (r, st) if r is not None else None


@reg(EN + "or_insert")
def _m(e, F, fn, a, st, t):
    if a[0].op != "entry":
        return None
    r = entry_ref(e, a[0], a[1])
    if r is None:
        return None
    # make the insertion visible even when nothing is written through the reference
    return r, insert_absent(e, a[0], a[1], st)


@reg(EN + "or_insert_with")
def _m(e, F, fn, a, st, t):
    if a[0].op != "entry":
        return None
    v, st = e.apply(a[1], [], st)
    r = entry_ref(e, a[0], v)
    if r is None:
        return None
    return r, insert_absent(e, a[0], v, st)


@reg("std::collections::HashSet::<T, S, A>::insert")
def _m(e, F, fn, a, st, t):
    m = e.deref(a[0], st)
    k = e.deref(a[1], st)
    return NOT(setin(m, k)), e.setref(a[0], lift(lambda y: raw("setput", y, k), m), st)


@reg("std::collections::HashSet::<T, S, A>::contains")
def _m(e, F, fn, a, st, t):
    s, k = e.deref(a[0], st), e.deref(a[1], st)
    ty = e.argty(fn, 0)

    def f(x):
        ks = []
        y = x
        while y.op == "setput":
            ks.append(y.a[1])
            y = y.a[0]
        if y.op != "setnil" or len(ks) > 8:
            return setin(x, k)
        r = FALSE
        for z in ks:
            r = OR(r, e.eqty(ty, z, k))
        return r
    return lift(f, s), st


def hashed(path):
    """ordered maps and sets have the same contents semantics as hashed ones"""
    if "BTree" not in path and "btree_" not in path and "hash_map::Entry" not in path:
        return path
    return (path.replace("std::collections::BTreeMap::<K, V, A>::", H)
            .replace("std::collections::BTreeSet::<T, A>::", "std::collections::HashSet::<T, S, A>::")
            .replace("std::collections::btree_map::", "std::collections::hash_map::")
            .replace("Entry::<'a, K, V, A>::", "Entry::<'a, K, V>::"))


def setin(s, k):
    def f(x):
        if x.op == "setnil":
            return FALSE
        return raw("setin", x, k)
    return lift(f, s)


@reg("core::slice::<impl [T]>::contains")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    k = e.deref(a[1], st)
    if v.op == "adt" and v.a[0] == "array":
        r = FALSE
        for x in v.a[3]:
            r = OR(r, e.eqv(x, k))
        return r, st

    def step(x, s1):
        c = under(e.eqv(x, k), s1.pc)
        return [s1.fork(NOT(c))], [(TRUE, s1.fork(c), False)]
    return e.consume(raw("iter", v, ()), step, st, lambda s: FALSE)


# ---- numbers
def num(suffixes, f):
    for ty in WID:
        for s in suffixes:
            TABLE["core::num::<impl %s>::%s" % (ty, s)] = (lambda ty: lambda e, F, fn, a, st, t: f(e, ty, [e.deref(x, st) for x in a], st))(ty)


def _chk(op):
    def f(e, ty, a, st):
        v = binop(op + "WithOverflow", ty, a[0], a[1])
        return ite(fld(v, None, 1), NONE, SOME(fld(v, None, 0))), st
    return f


def _ovf(op):
    def f(e, ty, a, st):
        v = binop(op + "WithOverflow", ty, a[0], a[1])
        return ADT("tuple", 0, None, (fld(v, None, 0), fld(v, None, 1))), st
    return f


num(["overflowing_add"], _ovf("Add"))
num(["overflowing_sub"], _ovf("Sub"))
num(["overflowing_mul"], _ovf("Mul"))


def fold_le(ty, arr):
    return raw("le", ty, arr)


num(["checked_add"], _chk("Add"))
num(["checked_sub"], lambda e, ty, a, st: (ite(lt(a[0], a[1]), NONE, SOME(binop("Sub", ty, a[0], a[1]))), st) if ty[0] == "u" else _chk("Sub")(e, ty, a, st))
num(["checked_mul"], _chk("Mul"))
num(["checked_div"], lambda e, ty, a, st: (ite(eq(a[1], INT(0)), NONE, SOME(binop("Div", ty, a[0], a[1]))), st))
num(["checked_rem"], lambda e, ty, a, st: (ite(eq(a[1], INT(0)), NONE, SOME(binop("Rem", ty, a[0], a[1]))), st))
num(["saturating_sub"], lambda e, ty, a, st: (ite(lt(a[0], a[1]), INT(0), binop("Sub", ty, a[0], a[1])), st) if ty[0] == "u" else (raw("call", "saturating_sub", *a), st))
num(["wrapping_add"], lambda e, ty, a, st: (binop("Add", ty, a[0], a[1]), st))
num(["wrapping_sub"], lambda e, ty, a, st: (binop("Sub", ty, a[0], a[1]), st))
num(["wrapping_mul"], lambda e, ty, a, st: (binop("Mul", ty, a[0], a[1]), st))
num(["wrapping_neg"], lambda e, ty, a, st: (raw("un", "Neg", ty, a[0]), st))
def ofbytes(ty, x, be):
    if x.op == "adt" and x.a[0] == "array" and ty[0] == "u":
        el = list(x.a[3])[::-1] if be else list(x.a[3])
        bs = []
        for y in el:
            b = tobits("u8", y)
            if b is None:
                return raw("be" if be else "le", ty, x)
            bs += b
        return frombits(ty, bs)
    if x.op == "adt" and x.a[0] == "array" and ty[0] == "i":
        # the same bits, read as a signed number
        u = "u" + ty[1:]
        v = ofbytes(u, x, be)
        return cast(u, ty, v) if v.op not in ("be", "le") else raw("be" if be else "le", ty, x)
    return raw("be" if be else "le", ty, x)


num(["from_le_bytes"], lambda e, ty, a, st: (lift(lambda x: ofbytes(ty, x, False), a[0]), st))
num(["from_be_bytes"], lambda e, ty, a, st: (lift(lambda x: ofbytes(ty, x, True), a[0]), st))
num(["to_le_bytes"], lambda e, ty, a, st: (lift(lambda x: tole(ty, x), a[0]), st))
num(["to_be_bytes"], lambda e, ty, a, st: (lift(lambda x: tobe(ty, x), a[0]), st))


def _tz(lead):
    def f(e, ty, a, st):
        w = WID[ty]
        b = tobits(ty, a[0])
        if b is None or w > 64:
            return raw("call", "leading_zeros" if lead else "trailing_zeros", a[0]), st
        r = INT(w)
        for i in (range(w) if lead else range(w - 1, -1, -1)):
            r = ite(eq(frombits("u8", [b[i]] + [0] * 7), INT(1)), INT(w - 1 - i if lead else i), r)
        return r, st
    return f


num(["trailing_zeros"], _tz(False))
num(["leading_zeros"], _tz(True))
num(["min"], lambda e, ty, a, st: (ite(lt(a[1], a[0]), a[1], a[0]), st))
num(["is_power_of_two"], lambda e, ty, a, st: (raw("call", "pow2", *a), st))


def tole(ty, x):
    if x.op == "int":
        n = WID[ty] // 8
        v = x.a[0] & ((1 << WID[ty]) - 1)
        return ADT("array", 0, None, tuple(INT((v >> (8 * i)) & 255) for i in range(n)))
    b = tobits(ty, x)
    if b is not None:
        return ADT("array", 0, None, tuple(frombits("u8", b[8 * i:8 * i + 8]) for i in range(WID[ty] // 8)))
    return raw("tole", ty, x)


def tobe(ty, x):
    r = tole(ty, x)
    if r.op == "adt":
        return ADT("array", 0, None, tuple(reversed(r.a[3])))
    return raw("tobe", ty, x)


for _f in ("f32", "f64"):
    TABLE["core::%s::<impl %s>::from_le_bytes" % (_f, _f)] = (lambda _f: lambda e, F, fn, a, st, t: (raw("lef", _f, e.deref(a[0], st)), st))(_f)


# ---- byte cursors over slices (bytes::Buf for &[u8])
def _bufget(ty):
    n = 4 if ty == "f32" else 8 if ty == "f64" else WID[ty] // 8

    def m(e, F, fn, a, st, t):
        if e.argty(fn, 0)["s"].replace("'_ ", "") not in ("&[u8]",) and a[0].op != "mref":
            return None
        x = under(e.deref(a[0], st), st.pc)
        short = lt(e.length(x), INT(n))
        arr = ADT("array", 0, None, tuple(e.index(x, INT(i)) for i in range(n)))
        if ty[0] == "f":
            v = raw("fbits", ty, ofbytes("u32" if n == 4 else "u64", arr, False))
        else:
            v = ofbytes(ty, arr, False) if n > 1 else arr.a[3][0]
        st = e.setref(a[0], ite(short, x, mksub(e, x, INT(n), e.length(x))), st)
        return ite(short, ERRV(raw("const", "TryGetError")), OK(v)), st
    return m


def _bufget_or_panic(ty):
    n = 4 if ty == "f32" else 8 if ty == "f64" else WID[ty] // 8
    get = _bufget(ty)

    def m(e, F, fn, a, st, t):
        x = e.deref(a[0], st)
        r = get(e, F, fn, a, st, t)
        if r is None:
            return None
        e.len_obl(F, fn, x, INT(n), st, t)
        return lift(lambda v: v.a[3][0] if v.op == "adt" and v.a[1] == 0 else BOT, r[0]), r[1]
    return m


for _t in ("u8", "u16", "u32", "u64", "u128", "f32", "f64"):
    _n = "%s%s" % (_t, "" if _t == "u8" else "_le")
    TABLE["bytes::Buf::try_get_" + _n] = _bufget(_t)
    TABLE["bytes::Buf::get_" + _n] = _bufget_or_panic(_t)


@reg("bytes::Buf::remaining")
def _m(e, F, fn, a, st, t):
    if fn["path"] != "<&[u8] as bytes::Buf>::remaining":
        return None
    return e.length(e.deref(a[0], st)), st


@reg("bytes::Buf::has_remaining")
def _m(e, F, fn, a, st, t):
    return lt(INT(0), e.length(e.deref(a[0], st))), st


@reg("bytes::Buf::chunk")
def _m(e, F, fn, a, st, t):
    if fn["path"] != "<&[u8] as bytes::Buf>::chunk":
        return None
    return e.deref(a[0], st), st


@reg("bytes::Buf::advance")
def _m(e, F, fn, a, st, t):
    if fn["path"] != "<&[u8] as bytes::Buf>::advance":
        return None
    x = e.deref(a[0], st)
    e.len_obl(F, fn, x, a[1], st, t)
    return UNIT, e.setref(a[0], mksub(e, x, a[1], e.length(x)), st)


@reg("core::slice::<impl [T]>::split_at")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    e.len_obl(F, fn, x, a[1], st, t)
    return ADT("tuple", 0, None, (mksub(e, x, INT(0), a[1]), mksub(e, x, a[1], e.length(x)))), st


@reg("core::slice::<impl [T]>::split_at_checked")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    return ite(lt(e.length(x), a[1]), NONE,
               SOME(ADT("tuple", 0, None, (mksub(e, x, INT(0), a[1]), mksub(e, x, a[1], e.length(x)))))), st


@reg("core::slice::<impl [T]>::split_first")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    return ite(lt(INT(0), e.length(x)),
               SOME(ADT("tuple", 0, None, (e.index(x, INT(0)), mksub(e, x, INT(1), e.length(x))))), NONE), st


@reg("core::slice::<impl [T]>::split_last")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    n1 = binop("Sub", "usize", e.length(x), INT(1))
    return ite(lt(INT(0), e.length(x)),
               SOME(ADT("tuple", 0, None, (e.index(x, n1), mksub(e, x, INT(0), n1)))), NONE), st


for _f, _u in (("f32", "u32"), ("f64", "u64")):
    TABLE["core::%s::<impl %s>::from_bits" % (_f, _f)] = (lambda _f: lambda e, F, fn, a, st, t: (raw("fbits", _f, a[0]), st))(_f)
    TABLE["core::%s::<impl %s>::to_bits" % (_f, _f)] = (lambda _f: lambda e, F, fn, a, st, t: (a[0].a[1] if a[0].op == "fbits" else raw("call", "to_bits", a[0]), st))(_f)
    TABLE["core::%s::<impl %s>::from_le_bytes" % (_f, _f)] = (lambda _f, _u: lambda e, F, fn, a, st, t: (raw("fbits", _f, ofbytes(_u, e.deref(a[0], st), False)), st))(_f, _u)


# ---- arrays of few elements
@reg("std::array::from_fn", "core::array::from_fn")
def _m(e, F, fn, a, st, t):
    n = array_len(e, e.destty(F, t)) if F is not None and t else None
    if n is None or n > 8:
        return None
    out = []
    for k in range(n):
        x, st = e.apply(a[0], [INT(k)], st)
        out.append(x)
    return ADT("array", 0, None, tuple(out)), st


@reg("core::array::<impl [T; N]>::map", "std::array::<impl [T; N]>::map")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    if x.op != "adt" or len(x.a[3]) > 8:
        return None
    out = []
    for y in x.a[3]:
        y, st = e.apply(a[1], [y], st)
        out.append(y)
    return ADT("array", 0, None, tuple(out)), st


# ---- files: the status of an open file can always be had; a whole file is read the same way
# with and without a buffer in between
@reg("std::fs::File::metadata")
def _m(e, F, fn, a, st, t):
    c, st = e.opaque_call("std::fs::File::metadata", a, st)
    return OK(fld(c, 0, 0)), st


@reg("std::io::BufReader::<R>::new")
def _m(e, F, fn, a, st, t):
    return a[0], st


@reg("std::fs::read")
def _m(e, F, fn, a, st, t):
    f, st = e.opaque_call("std::fs::File::open", a, st)
    bad = is_err(f)
    s1 = st.fork(NOT(bad)).copy()
    c = e.newcell(s1, raw("vecnil"))
    h = e.newcell(s1, ok_val(f))
    r, s1 = e.opaque_call("std::io::Read::read_to_end", [raw("mref", h, ()), raw("mref", c, ())], s1)
    v = ite(is_err(r), ERRV(ERR if e.collapse else err_val(r)), OK(s1.env[c]))
    s1.env.pop(c, None)
    s1.env.pop(h, None)
    return ite(bad, ERRV(ERR if e.collapse else err_val(f)), v), St(st.pc, s1.env)


# ---- uuid
@reg("uuid::Uuid::is_nil")
def _m(e, F, fn, a, st, t):
    return eq(e.deref(a[0], st), raw("call", UUID_NIL)), st


@reg("uuid::builder::<impl uuid::Uuid>::from_bytes_le")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    if x.op == "tole":
        x = ADT("array", 0, None, tuple(e.index(x, INT(k)) for k in range(16)))
    if x.op != "adt" or len(x.a[3]) != 16:
        return None
    x = x.a[3]
    return raw("call", "uuid::builder::<impl uuid::Uuid>::from_bytes", ADT("array", 0, None, (x[3], x[2], x[1], x[0], x[5], x[4], x[7], x[6]) + tuple(x[8:]))), st


# ---- mem
@reg("std::mem::take")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    d, st = e.default_of(e.argty(fn, 0), st)
    return v, e.setref(a[0], d, st)


@reg("std::mem::replace")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return v, e.setref(a[0], a[1], st)


@reg("std::mem::swap")
def _m(e, F, fn, a, st, t):
    v, w = e.deref(a[0], st), e.deref(a[1], st)
    st = e.setref(a[0], w, st)
    return UNIT, e.setref(a[1], v, st)


@reg("std::mem::drop", "std::mem::forget")
def _m(e, F, fn, a, st, t):
    return UNIT, st


# ---- strings / formatting
@reg("std::string::String::new")
def _m(e, F, fn, a, st, t):
    return STR(""), st


@reg("std::string::String::push_str", "std::string::String::push")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return UNIT, e.setref(a[0], lift(lambda x: strcat(x, e.deref(a[1], st)), v), st)


@reg("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
     "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex",
     "core::fmt::rt::Argument::<'_>::new_binary")
def _m(e, F, fn, a, st, t):
    return raw("fmtarg", fn["path"].split("_", 1)[1].split("_", 1)[-1], e.deref(a[0], st)), st


@reg("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_const", "core::fmt::rt::<impl std::fmt::Arguments<'a>>::new_v1")
def _m(e, F, fn, a, st, t):
    xs = a[1] if len(a) > 1 else UNIT
    return raw("fmtargs", e.deref(a[0], st), e.deref(xs, st)), st


@reg("std::fmt::Arguments::<'a>::from_str")
def _m(e, F, fn, a, st, t):
    return e.deref(a[0], st), st


@reg("std::fmt::format")
def _m(e, F, fn, a, st, t):
    x = a[0]
    if x.op == "fmtargs":
        p = fmt_parts(x)
        if p is not None:
            return p, st
        return raw("fmt", (x,)), st
    return x, st


def fmt_parts(x):
    """decode the compact template of fmt::Arguments::new (string pieces + default placeholders)"""
    tpl, xs = x.a
    if tpl.op != "bytes" or xs.op != "adt":
        return None
    b = list(tpl.a[0])
    out = STR("")
    i = 0
    n = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            try:
                out = strcat(out, STR(bytes(b[i:i + c]).decode()))
            except Exception:
                return None
            i += c
        elif c == 0xC0:
            if n >= len(xs.a[3]):
                return None
            ar = xs.a[3][n]
            n += 1
            v = ar.a[1] if ar.op == "fmtarg" and ar.a[0] == "display" else ar
            out = strcat(out, v)
        else:
            return None
    return out


# ---------------------------------------------------------------- more of Option and Result
@reg(R + "or")
def _m(e, F, fn, a, st, t):
    return ite(is_err(a[0]), a[1], OK(ok_val(a[0]))), st


@reg(R + "and")
def _m(e, F, fn, a, st, t):
    return ite(is_err(a[0]), ERRV(ERR if e.collapse else err_val(a[0])), a[1]), st


@reg(R + "is_ok_and")
def _m(e, F, fn, a, st, t):
    c = NOT(is_err(a[0]))
    v, st = e.cond_apply(c, a[1], [ok_val(a[0])], st)
    return ite(c, v, FALSE), st


@reg(R + "is_err_and")
def _m(e, F, fn, a, st, t):
    c = is_err(a[0])
    v, st = e.cond_apply(c, a[1], [err_val(a[0])], st)
    return ite(c, v, FALSE), st


@reg(R + "map_or")
def _m(e, F, fn, a, st, t):
    c = NOT(is_err(a[0]))
    v, st = e.cond_apply(c, a[2], [ok_val(a[0])], st)
    return ite(c, v, a[1]), st


@reg(R + "map_or_else")
def _m(e, F, fn, a, st, t):
    c = is_err(a[0])
    d, st = e.cond_apply(c, a[1], [err_val(a[0])], st)
    v, st = e.cond_apply(NOT(c), a[2], [ok_val(a[0])], st)
    return ite(c, d, v), st


@reg(R + "inspect")
def _m(e, F, fn, a, st, t):
    _v, st = e.cond_apply(NOT(is_err(a[0])), a[1], [ok_val(a[0])], st)
    return a[0], st


@reg(R + "inspect_err")
def _m(e, F, fn, a, st, t):
    _v, st = e.cond_apply(is_err(a[0]), a[1], [err_val(a[0])], st)
    return a[0], st


@reg(R + "iter", R + "into_iter", "<std::result::Result<T, E> as std::iter::IntoIterator>::into_iter")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return raw("iter", raw("optseq", ite(is_err(v), NONE, SOME(ok_val(v)))), ()), st


@reg("std::result::Result::<std::result::Result<T, E>, E>::flatten")
def _m(e, F, fn, a, st, t):
    er = ERR if e.collapse else err_val(a[0])
    return ite(is_err(a[0]), ERRV(er), ok_val(a[0])), st


@reg(O + "xor")
def _m(e, F, fn, a, st, t):
    return ite(is_some(a[0]), ite(is_some(a[1]), NONE, a[0]), a[1]), st


@reg("std::option::Option::<(T, U)>::unzip")
def _m(e, F, fn, a, st, t):
    x = some_val(a[0])
    tag = ("tuple", 2)
    return ADT("tuple", 0, None, tuple(ite(is_some(a[0]), SOME(fld(x, None, i, tag)), NONE) for i in (0, 1))), st


# ---------------------------------------------------------------- more iterators
def two_into(e, it, first, st):
    """one pass over `it` that pushes to two vectors; first(x, st) -> [(cond, which, value)], st"""
    st = st.copy()
    cells = [e.newcell(st, raw("vecnil")) for _ in (0, 1)]

    def step(x, s1):
        puts, s1 = first(x, s1)
        s1 = s1.copy()
        for cond, w, v in puts:
            old = s1.env[cells[w]]
            s1.env[cells[w]] = ite(cond, raw("push", old, under(v, AND(s1.pc, cond))), old)
        return [s1], []
    v, st2 = e.consume(it, step, st, lambda s: ADT("tuple", 0, None, tuple(s.env[c] for c in cells)))
    st2 = st2.copy()
    for c in cells:
        st2.env.pop(c, None)
    return v, st2


def vec_pair(e, F, t):
    d = e.destty(F, t)
    return d["k"] == "tuple" and len(d["args"]) == 2 and \
        all(e.prog.types[i]["s"].startswith("std::vec::Vec<") for i in d["args"])


@reg(I + "unzip")
def _m(e, F, fn, a, st, t):
    if not vec_pair(e, F, t):
        return None
    tag = ("tuple", 2)
    return two_into(e, e.iter_of(e.deref(a[0], st)),
                    lambda x, s: ([(TRUE, i, fld(x, None, i, tag)) for i in (0, 1)], s), st)


@reg(I + "partition")
def _m(e, F, fn, a, st, t):
    if not vec_pair(e, F, t):
        return None

    def first(x, s):
        c, s = e.apply(a[1], [x], s)
        c = under(c, s.pc)
        return [(c, 0, x), (NOT(c), 1, x)], s
    return two_into(e, e.iter_of(e.deref(a[0], st)), first, st)


@reg("std::iter::zip")
def _m(e, F, fn, a, st, t):
    return raw("iter", zipped(e, e.base_of(e.iter_of(e.deref(a[0], st)), st),
                              e.base_of(e.iter_of(e.deref(a[1], st)), st), fn), ()), st


_take = TABLE[I + "take"]


@reg(I + "take")
def _m(e, F, fn, a, st, t):
    it = e.iter_of(e.deref(a[0], st))
    # n calls of a generator, n elements from a counter
    if it.op == "iter":
        b = it.a[0]
        if b.op == "call" and b.a[0] == "std::iter::repeat_with" and len(b.a) == 2:
            f = b.a[1]
            return raw("iter", raw("range", INT(0), a[1]), (raw("st_const", f),) + it.a[1]), st
        if b.op == "call" and b.a[0] == "std::iter::repeat" and len(b.a) == 2 and not it.a[1]:
            return raw("iter", raw("repeat", b.a[1], a[1]), ()), st
    return _take(e, F, fn, a, st, t)


@reg("std::iter::repeat_with")
def _m(e, F, fn, a, st, t):
    return raw("call", "std::iter::repeat_with", a[0]), st


@reg("std::iter::repeat_n")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("repeat", a[0], a[1]), ()), st


@reg("std::iter::once")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("optseq", SOME(a[0])), ()), st


@reg("std::iter::empty")
def _m(e, F, fn, a, st, t):
    return raw("iter", raw("vecnil"), ()), st


@reg(I + "is_empty", "std::iter::ExactSizeIterator::is_empty")
def _m(e, F, fn, a, st, t):
    return eq(e.length(e.base_of(e.iter_of(e.deref(a[0], st)), st)), INT(0)), st


@reg("core::slice::<impl [T]>::first_chunk")
def _m(e, F, fn, a, st, t):
    d = e.destty(F, t)
    n = array_len(e, d)
    if n is None:
        return None
    x = e.deref(a[0], st)
    return ite(lt(e.length(x), INT(n)), NONE, SOME(ADT("array", 0, None, tuple(e.index(x, INT(i)) for i in range(n))))), st


def array_len(e, ty):
    """N of the array inside Option<&[T; N]>, Result<[T; N], _> or &[T; N], when small"""
    m = re.search(r"\[[^\[\];]*; (\d+)(_usize)?\]", ty.get("s", ""))
    return int(m.group(1)) if m and int(m.group(1)) <= 64 else None


def slice_to_array(e, fn, a, st, frm, to):
    if not re.match(r"&?('[a-z_]+ )?(mut )?(\[[^;]*\]|std::vec::Vec<.*>)$", frm):
        return None
    n = array_len(e, {"s": to})
    if n is None:
        return None
    x = e.deref(a[0], st)
    arr = ADT("array", 0, None, tuple(e.index(x, INT(i)) for i in range(n)))
    bad = NOT(eq(e.length(x), INT(n)))
    return ite(bad, ERRV(ERR if e.collapse else raw("const", "TryFromSliceError")), OK(arr)), st


_try_ints = TABLE["std::convert::TryFrom::try_from"]


@reg("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _m(e, F, fn, a, st, t):
    r = _try_ints(e, F, fn, a, st, t)
    if r is None and not fn["local"]:
        i, o = (0, 1) if fn["decl"].endswith("try_into") else (1, 0)
        r = slice_to_array(e, fn, a, st, e.argty(fn, i)["s"], e.argty(fn, o)["s"])
    return r


def prefixed(e, v, k, at):
    """v[at..at+len k] is the constant array k"""
    r = TRUE
    for i, x in enumerate(k):
        r = AND(r, eq(e.index(v, binop("Add", "usize", at, INT(i))), x))
    return r


def const_elems(x):
    if x.op == "adt" and x.a[0] == "array" and len(x.a[3]) <= 16:
        return list(x.a[3])
    if x.op == "bytes" and len(x.a[0]) <= 16:
        return [INT(b) for b in x.a[0]]
    return None


@reg("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def _m(e, F, fn, a, st, t):
    v, k = e.deref(a[0], st), e.deref(a[1], st)
    ks = const_elems(k)
    if ks is None or e.argty(fn, 0)["s"] not in WID:
        return None
    n = e.length(v)
    at = INT(0) if fn["path"].endswith("starts_with") else binop("Sub", "usize", n, INT(len(ks)))
    return ite(lt(n, INT(len(ks))), FALSE, prefixed(e, v, ks, at)), st


@reg("std::slice::<impl [T]>::concat")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    s = e.destty(F, t)["s"]
    if s == "std::string::String":
        return accum(e, raw("iter", v, ()), STR(""), lambda acc, x, s1: (strcat(acc, x), s1), st)
    if s.startswith("std::vec::Vec<"):
        return accum(e, raw("iter", v, ()), raw("vecnil"), lambda acc, x, s1: (mkext(acc, x), s1), st)
    return None


@reg("std::vec::Vec::<T, A>::retain")
def _m(e, F, fn, a, st, t):
    it = e.stage(raw("iter", e.deref(a[0], st), ()), raw("st_filter", a[1]))
    v, st = e.collect(it, {"s": "std::vec::Vec<", "k": "adt"}, st)
    return UNIT, e.setref(a[0], v, st)


@reg("std::vec::Vec::<T, A>::pop")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)

    def f(x):
        if x.op == "push":
            return ADT("tuple", 0, None, (SOME(x.a[1]), x.a[0]))
        if x.op == "vecnil":
            return ADT("tuple", 0, None, (NONE, x))
        n = e.length(x)
        n1 = binop("Sub", "usize", n, INT(1))
        z = eq(n, INT(0))
        return ite(z, ADT("tuple", 0, None, (NONE, x)),
                   ADT("tuple", 0, None, (SOME(raw("idx", x, n1)), mksub(e, x, INT(0), n1))))
    r = lift(f, v)
    return fld(r, None, 0, ("tuple", 2)), e.setref(a[0], fld(r, None, 1, ("tuple", 2)), st)


@reg("std::vec::Vec::<T, A>::truncate")
def _m(e, F, fn, a, st, t):
    v = e.deref(a[0], st)
    return UNIT, e.setref(a[0], lift(lambda x: ite(lt(a[1], e.length(x)), mksub(e, x, INT(0), a[1]), x), v), st)


# ---------------------------------------------------------------- more maps
@reg(H + "get_mut")
def _m(e, F, fn, a, st, t):
    if a[0].op != "mref":
        return None
    m, k = e.deref(a[0], st), e.deref(a[1], st)
    g = e.mapget(m, k)
    r = raw("mref", a[0].a[0], tuple(a[0].a[1]) + (("key", k, BOT),))
    return ite(is_some(g), SOME(r), NONE), st


@reg(H + "remove")
def _m(e, F, fn, a, st, t):
    m, k = e.deref(a[0], st), e.deref(a[1], st)
    return e.mapget(m, k), e.setref(a[0], raw("mapdel", m, k), st)


@reg(EN + "and_modify")
def _m(e, F, fn, a, st, t):
    en = a[0]
    if en.op != "entry" or en.a[0].op != "mref":
        return None
    c = is_some(e.mapget(e.deref(en.a[0], st), en.a[1]))
    _v, st = e.cond_apply(c, a[1], [entry_ref(e, en, BOT)], st)
    return en, st


@reg(EN + "key", "std::collections::hash_map::VacantEntry::<'a, K, V, A>::key")
def _m(e, F, fn, a, st, t):
    x = e.deref(a[0], st)
    return (x.a[1], st) if x.op == "entry" else None


VE = "std::collections::hash_map::VacantEntry::<'a, K, V, A>::"
OE = "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::"


@reg(VE + "insert", VE + "insert_entry", OE + "insert")
def _m(e, F, fn, a, st, t):
    en = a[0] if a[0].op == "entry" else e.deref(a[0], st)
    if en.op != "entry" or en.a[0].op != "mref":
        return None
    old = e.deref(en.a[0], st)
    st = e.setref(en.a[0], lift(lambda y: mapput(y, en.a[1], a[1]), old), st)
    if "Occupied" in fn["path"]:
        return some_val(e.mapget(old, en.a[1])), st
    return entry_ref(e, en, a[1]), st


@reg(OE + "get")
def _m(e, F, fn, a, st, t):
    en = a[0] if a[0].op == "entry" else e.deref(a[0], st)
    if en.op != "entry" or en.a[0].op != "mref":
        return None
    return some_val(e.mapget(e.deref(en.a[0], st), en.a[1])), st


@reg(OE + "get_mut", OE + "into_mut")
def _m(e, F, fn, a, st, t):
    en = a[0] if a[0].op == "entry" else e.deref(a[0], st)
    if en.op != "entry" or en.a[0].op != "mref":
        return None
    return entry_ref(e, en, BOT), st


# ---------------------------------------------------------------- ranges, orderings
@reg("std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::contains",
     "std::ops::RangeBounds::contains")
def _m(e, F, fn, a, st, t):
    r, x = e.deref(a[0], st), e.deref(a[1], st)
    if e.argty(fn, 0)["s"].split("<")[-1].rstrip(">") not in WID:
        return None
    if r.op == "adt" and r.a[0] in ("std::ops::Range", "core::ops::Range"):
        return AND(NOT(lt(x, r.a[3][0])), lt(x, r.a[3][1])), st
    if r.op == "call" and r.a[0].endswith("RangeInclusive::<Idx>::new"):
        return AND(NOT(lt(x, r.a[1])), NOT(lt(r.a[2], x))), st
    if r.op == "adt" and r.a[0] == "std::ops::RangeInclusive":
        return AND(NOT(lt(x, r.a[3][0])), NOT(lt(r.a[3][1], x))), st
    return None


def extremum(first):
    def m(e, F, fn, a, st, t):
        ty = None
        d = e.destty(F, t)
        if d.get("def") == OPT:
            ty = e.prog.types[d["args"][0]]["s"].lstrip("&")
        if ty not in WID:
            return None

        def stepf(acc, x, s):
            y = some_val(acc)
            keep = binop("Lt", ty, x, y) if first == "max" else NOT(binop("Lt", ty, x, y))
            return ite(AND(is_some(acc), keep), acc, SOME(x)), s
        return accum(e, e.iter_of(e.deref(a[0], st)), NONE, stepf, st)
    return m


TABLE[I + "max"] = extremum("max")
TABLE[I + "min"] = extremum("min")
