"""Gated value-flow analysis over MIR.

Every body is interpreted abstractly once (one pass in reverse post-order, states are merged
at joins into gated values, loops are summarised as `lp` terms from a single abstract
iteration).  No path enumeration, no concrete input, no solver."""
import re
from terms import *
from prog import Prog, Body

OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
ERRTY = "errors::Error"


class Unsupported(Exception):
    pass


class St(object):
    __slots__ = ("pc", "env")

    def __init__(self, pc, env):
        self.pc = pc
        self.env = env

    def fork(self, cond):
        return St(AND(self.pc, cond), dict(self.env))

    def copy(self):
        return St(self.pc, dict(self.env))


class LoopCtx(object):
    def __init__(self):
        self.guards = []
        self.present = []    # (tick, guard): what holds of the element from then on
        self.nexts = {}


class Engine(object):
    def __init__(self, prog, opaque=(), collapse_err=True, inline_depth=40, opaque_pred=None, strip_msgs=True):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.collapse = collapse_err
        self.strip_msgs = strip_msgs
        self.nframe = 0
        self.nheap = 0
        self.depth = 0
        self.elen = {}
        self.stack = []
        self.loopstack = []
        self.obls = []
        self.casts = []          # conversions that can cut a number
        self.allocs = []     # reservations of memory
        self.orders = []     # passes over hash collections and directories
        self.seen = set()    # bodies entered
        self.record = 1
        self.maxdepth = inline_depth
        self.notes = []
        self.loops = []      # finished loops (LoopCtx)
        self.calls = []      # (caller, callee, span)
        self.ticks = []      # when each of the events was seen
        self.events = []     # hook: every opaque call evaluated (path, args, pc, site)
        NVAR.update(prog.nvar)
        for ad in prog.adts.values():
            for vi, v in enumerate(ad["variants"]):
                FIELDS[(ad["id"], vi)] = tuple(f["n"] for f in v["f"])

    # ------------------------------------------------------------ entry points
    def analyse(self, fid, args=None, heap=None):
        """abstract result of body fid on symbolic parameters.  Returns (ret, St)"""
        body = self.prog.bodies[fid]
        st = St(TRUE, {})
        a = []
        for i in range(body.argc):
            if args is not None and i < len(args) and args[i] is not None:
                a.append(args[i])
                continue
            ty = body.lty(i + 1)
            nm = body.locals[i + 1].get("n", "arg%d" % i)
            s = raw("sym", "p%d" % i)
            if ty["k"] == "ref" and ty["mut"]:
                cell = ("H", "p%d" % i)
                st.env[cell] = raw("sym", "*p%d" % i)
                a.append(raw("mref", cell, ()))
            else:
                a.append(s)
        ret, st2 = self.call_body(body, a, st)
        return ret, st2

    # ------------------------------------------------------------ memory
    def resolve(self, F, p, st):
        """place -> ('cell', cell, path) or ('val', term, path-done)"""
        cell = ("L", F.n, p["l"])
        path = []
        var = None
        ty = F.body.lty(p["l"])
        cur = ("cell", cell)
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                v = self.load_cp(cur, path, st)
                v = under(v, st.pc)
                path = []
                if v.op == "mref":
                    cur = ("cell", v.a[0])
                    path = list(v.a[1])
                elif v.op == "ite" and all(l.op in ("mref", "bot") for l in leaves(v)):
                    cur = ("multi", v)
                else:
                    cur = ("val", v)
                var = None
            elif k == "downcast":
                var = e["v"]
            elif k == "field":
                tag = None
                path.append(("f", var, e["i"], e.get("tag")))
                var = None
            elif k == "index":
                path.append(("i", st.env.get(("L", F.n, e["l"]), BOT)))
            elif k == "constidx":
                path.append(("ci", e["o"], e["fe"], e["min"]))
            elif k == "subslice":
                path.append(("sub", e["from"], e["to"], e["fe"]))
            else:
                raise Unsupported("projection " + k)
        return cur, path

    def proj(self, v, path):
        for q in path:
            if q[0] == "f":
                v = self.field(v, q[1], q[2], q[3])
            elif q[0] == "i":
                v = self.index(v, q[1])
            elif q[0] == "ci":
                v = lift(lambda x: self.cidx(x, q), v)
            elif q[0] == "key":
                v = self.mapget_default(v, q[1], q[2])
            elif q[0] == "sl":
                v = lift(lambda x: self.sub(x, q[1], q[2]), v)
            else:
                v = lift(lambda x: self.sub(x, INT(q[1]), binop("Sub", "usize", self.length(x), INT(q[2])) if q[3] else INT(q[2])), v)
        return v

    def sub(self, x, lo, hi):
        return raw("sub2", x, lo, hi)

    def cidx(self, x, q):
        if not q[2]:
            return self.index(x, INT(q[1]))
        return self.index(x, binop("Sub", "usize", self.length(x), INT(q[1])))

    def index(self, v, i):
        def f(x):
            if x.op == "adt" and x.a[0] == "array" and i.op == "int" and 0 <= i.a[0] < len(x.a[3]):
                return x.a[3][i.a[0]]
            if x.op == "bytes" and i.op == "int" and 0 <= i.a[0] < len(x.a[0]):
                return INT(x.a[0][i.a[0]])
            if x.op == "sub2":
                return self.index(x.a[0], binop("Add", "usize", x.a[1], i))
            if x.op == "repeat":
                return x.a[0]
            if x.op == "put":
                return ite(eq(x.a[1], i), x.a[2], self.index(x.a[0], i))
            return raw("idx", x, i)
        return lift(f, v)

    def field(self, v, var, i, tag):
        return fld(v, var, i, tag)

    def load_cp(self, cur, path, st):
        if cur[0] == "cell":
            v = st.env.get(cur[1])
            if v is None:
                v = BOT
        elif cur[0] == "multi":
            def f(r):
                return self.proj(st.env.get(r.a[0], BOT), list(r.a[1]))
            v = lift(f, cur[1])
        else:
            v = cur[1]
        return self.proj(v, path)

    def load(self, F, p, st):
        self.tagfix(F, p)
        cur, path = self.resolve(F, p, st)
        return self.load_cp(cur, path, st)

    def tagfix(self, F, p):
        """compute eta tags for field projections once (adt def + field count)"""
        if p.get("_t"):
            return
        ty = F.body.lty(p["l"])
        var = None
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                ty = self.prog.types[ty["to"]] if ty and "to" in ty else (
                    self.prog.types[ty["args"][0]] if ty and ty.get("def") == "std::boxed::Box" else None)
            elif k == "downcast":
                var = e["v"]
            elif k == "field":
                if ty is not None:
                    if ty["k"] == "adt":
                        d = ty["def"]
                        if d in TWO_VARIANT:
                            e["tag"] = (d, 1)
                        else:
                            a = self.prog.adts.get(d)
                            nf = len(a["variants"][var or 0]["f"]) if a else 0
                            e["tag"] = (d, nf)
                            if a and var is None and a["kind"] != "Enum":
                                var = 0
                        e["var"] = var
                        if a_is_struct(self, d):
                            e["isstruct"] = True
                    elif ty["k"] == "tuple":
                        e["tag"] = ("tuple", len(ty["args"]))
                ty = self.prog.types[e["t"]]
                var = None
            elif k in ("index", "constidx"):
                ty = self.prog.types[ty["of"]] if ty and "of" in ty else None
            elif k == "subslice":
                pass
        p["_t"] = True

    def store(self, F, p, v, st):
        self.tagfix(F, p)
        cur, path = self.resolve(F, p, st)
        self.store_cp(cur, path, v, st)

    def store_cp(self, cur, path, v, st):
        if cur[0] == "cell":
            st.env[cur[1]] = self.updpath(st.env.get(cur[1], BOT), path, v, st)
        elif cur[0] == "multi":
            for cond, r in guarded_leaves(cur[1]):
                if r.op == "mref":
                    old = st.env.get(r.a[0], BOT)
                    new = self.updpath(old, list(r.a[1]) + path, v, st)
                    st.env[r.a[0]] = ite(cond, new, old)
        else:
            self.notes.append(("store-through-opaque", show(cur[1])[:80]))

    def updpath(self, base, path, v, st):
        if not path:
            return v
        q = path[0]
        if q[0] == "key":
            old = self.mapget_default(base, q[1], q[2])
            return mapput(base, q[1], self.updpath(old, path[1:], v, st))
        if q[0] == "f":
            vi, i, tag = q[1], q[2], q[3]

            def f(x):
                inner = self.updpath(fld(x, vi, i, tag), path[1:], v, st)
                if x.op == "adt":
                    fs = list(x.a[3])
                    while len(fs) <= i:
                        fs.append(BOT)
                    fs[i] = inner
                    return ADT(x.a[0], x.a[1], x.a[2], tuple(fs))
                if x is BOT and tag:
                    fs = [BOT] * max(tag[1], i + 1)
                    fs[i] = inner
                    return raw("adt", tag[0], vi or 0, None, tuple(fs))
                if x is BOT:
                    fs = [BOT] * (i + 1)
                    fs[i] = inner
                    return raw("adt", "?", vi or 0, None, tuple(fs))
                return mkupd(x, vi, i, tag, inner)
            if base is BOT:
                return f(base)
            return lift(f, base)
        if q[0] == "i":
            return self.put(base, q[1], self.updpath(self.index(base, q[1]), path[1:], v, st))
        if q[0] == "sl":
            inner = self.updpath(self.sub(base, q[1], q[2]), path[1:], v, st)

            def g(x):
                lo, hi = q[1], q[2]
                if x.op == "adt" and x.a[0] == "array" and lo.op == "int" and hi.op == "int" and 0 <= lo.a[0] <= hi.a[0] <= len(x.a[3]):
                    fs = list(x.a[3])
                    for k in range(lo.a[0], hi.a[0]):
                        fs[k] = self.index(inner, INT(k - lo.a[0]))
                    return ADT(x.a[0], x.a[1], x.a[2], tuple(fs))
                return raw("putsub", x, lo, hi, inner)
            return lift(g, base)
        if q[0] == "ci" and not q[2]:
            return self.put(base, INT(q[1]), self.updpath(self.index(base, INT(q[1])), path[1:], v, st))
        if q[0] == "ci" or path[1:]:
            self.notes.append(("store-from-the-end", show(base)[:80]))
        return raw("putsub", base, v)

    def put(self, base, i, v):
        def f(x):
            if x.op == "adt" and x.a[0] == "array" and i.op == "int" and 0 <= i.a[0] < len(x.a[3]):
                fs = list(x.a[3])
                fs[i.a[0]] = v
                return ADT(x.a[0], x.a[1], x.a[2], tuple(fs))
            if x.op == "put" and x.a[1] is i:
                x = x.a[0]
            return raw("put", x, i, v)
        return lift(f, base)

    def mapget_default(self, m, k, dflt):
        g = self.mapget(m, k)
        return ite(is_some(g), some_val(g), dflt)

    def mapget(self, m, k):
        def f(x):
            if x.op == "mapput":
                return ite(eq(x.a[1], k), SOME(x.a[2]), self.mapget(x.a[0], k))
            if x.op == "mapdel":
                return ite(eq(x.a[1], k), NONE, self.mapget(x.a[0], k))
            if x.op == "mapnil":
                return NONE
            return raw("call", "mapget", x, k)
        return lift(f, m)

    # ------------------------------------------------------------ operands
    def const(self, c, F):
        v = c.get("v")
        if v is not None:
            return self.cval(v)
        if "fn" in c:
            return self.fnval(c["fn"])
        ty = self.prog.types[c["t"]]
        if "promoted" in c:
            pd = c["pdef"]
            ps = self.prog.promoted.get(pd)
            if ps and c["promoted"] < len(ps):
                rec = self.record
                self.record = 0
                try:
                    r, _ = self.call_body(ps[c["promoted"]], [], St(TRUE, {}))
                finally:
                    self.record = rec
                return r
        if ty["s"] == "()":
            return UNIT
        if ty["k"] == "closure":
            return raw("clo", ty["def"], ())
        if ty["k"] == "adt" and not ty["enum"]:
            pass
        return raw("const", c.get("named") or c.get("s", "?"))

    def cval(self, v):
        if "int" in v:
            return INT(v["int"])
        if "bool" in v:
            return BOOL(v["bool"])
        if "str" in v:
            return STR(v["str"])
        if "char" in v:
            return INT(v["char"])
        if "float" in v:
            return raw("float", v["float"])
        if "unit" in v:
            return UNIT
        if "bytes" in v:
            return raw("bytes", tuple(v["bytes"]))
        if "ref" in v:
            return self.cval(v["ref"])
        if "seq" in v:
            return ARR(self.cval(x) for x in v["seq"])
        if "adt" in v:
            return ADT(v["adt"], v["vi"], v["v"], tuple(self.cval(x) for x in v["fields"]))
        return raw("const", str(v))

    def fnval(self, fn):
        self.fninfo = getattr(self, "fninfo", {})
        key = (fn["path"], fn["decl"], tuple(fn["args"]))
        self.fninfo[key] = fn
        return raw("fn", fn["path"], fn["decl"], tuple(fn["args"]))

    def operand(self, F, o, st):
        if o["k"] == "const":
            return self.const(o["c"], F)
        if o["k"] in ("copy", "move"):
            return self.load(F, o["p"], st)
        return raw("const", o.get("s", "?"))

    def opty(self, F, o):
        if o["k"] == "const":
            return self.prog.types[o["c"]["t"]]
        if o["k"] in ("copy", "move"):
            return self.prog.types[o["p"]["t"]]
        return {"s": "?", "k": "?"}

    def rvalue(self, F, r, st, destty):
        k = r["k"]
        if k == "use":
            return self.operand(F, r["a"], st)
        if k == "ref":
            self.tagfix(F, r["p"])
            if r["mut"]:
                cur, path = self.resolve(F, r["p"], st)
                if cur[0] == "cell":
                    return raw("mref", cur[1], tuple(path))
                if cur[0] == "multi":
                    return lift(lambda m: raw("mref", m.a[0], tuple(m.a[1]) + tuple(path)), cur[1])
                # &mut through an opaque reference: keep the value
                return self.proj(cur[1], path)
            return self.load(F, r["p"], st)
        if k == "rawptr":
            self.tagfix(F, r["p"])
            cur, path = self.resolve(F, r["p"], st)
            if cur[0] == "cell":
                return raw("mref", cur[1], tuple(path))
            return self.load(F, r["p"], st)
        if k == "bin":
            a = self.operand(F, r["a"], st)
            b = self.operand(F, r["b"], st)
            ty = self.opty(F, r["a"])["s"]
            if ty not in WID and ty not in ("bool", "char", "f32", "f64"):
                ty = "?"
            return binop(r["op"], ty, a, b)
        if k == "un":
            a = self.operand(F, r["a"], st)
            ty = self.opty(F, r["a"])["s"]
            if r["op"] == "Not":
                if ty == "bool":
                    return NOT(a)
                if a.op == "int":
                    return INT(wrap(~a.a[0], ty))
                if ty in WID:
                    return binop("Sub", ty, INT(wrap(-1, ty)), a)
                return raw("un", "Not", ty, a)
            if r["op"] == "PtrMetadata":
                return self.length(a)
            if r["op"] == "Neg" and a.op == "int":
                return INT(wrap(-a.a[0], ty))
            return raw("un", r["op"], ty, a)
        if k == "discr":
            v = self.load(F, r["p"], st)
            pty = self.prog.types[r["p"]["t"]]
            if any(x.op == "entry" for x in leaves(v)):
                v = lift(lambda x: self.entry_variant(x, st), v)
            return raw_discr(v, pty)
        if k == "cast":
            a = self.operand(F, r["a"], st)
            ck = r["ck"]
            if "IntToInt" in ck:
                f = self.opty(F, r["a"])["s"]
                return self.int_cast(f, self.prog.types[r["t"]]["s"], a)
            if "FloatToInt" in ck or "IntToFloat" in ck or "FloatToFloat" in ck:
                return lift(lambda x: raw("fcast", self.opty(F, r["a"])["s"], self.prog.types[r["t"]]["s"], x), a)
            return a
        if k == "agg":
            ops = [self.operand(F, o, st) for o in r["ops"]]
            ak = r["ak"]
            if ak == "adt":
                return self.mkadt(r["def"], r["vi"], r["v"], ops, destty)
            if ak == "closure":
                return raw("clo", r["def"], tuple(ops))
            if ak == "tuple":
                if not ops:
                    return UNIT
                return ADT("tuple", 0, None, tuple(ops))
            if ak == "array":
                return ARR(ops)
            return raw("agg", ak, tuple(ops))
        if k == "repeat":
            a = self.operand(F, r["a"], st)
            if r["n"] is not None and r["n"] <= 32:
                return ARR((a,) * r["n"])
            return raw("repeat", a, r["n"])
        return raw("const", "rv:" + r.get("s", k)[:60])

    def int_cast(self, f, t, a):
        def g(x):
            if x.op == "discr":
                if x.a[0].op == "adt":
                    d = self.prog.adts.get(x.a[0].a[0])
                    if d:
                        return INT(d["variants"][x.a[0].a[1]]["d"])
                return cast(x.a[1], t, x)
            return cast(f, t, x)
        return lift(g, a)

    def mkadt(self, d, vi, v, ops, ty=None):
        if d == RES and v == "Err" and self.collapse:
            return ERRV(ERR)
        if d == "crate::errors::ErrorKind" and self.strip_msgs:
            ops = [x for x in ops if not is_msg(x)] if ops else ops
        return ADT(d, vi, v, tuple(ops))

    def length(self, v):
        def f(x):
            if x.op == "adt" and x.a[0] == "array":
                return INT(len(x.a[3]))
            if x.op == "bytes":
                return INT(len(x.a[0]))
            if x.op == "str":
                return INT(len(x.a[0].encode()))
            if x.op == "vecnil":
                return INT(0)
            if x.op == "push":
                return binop("Add", "usize", self.length(x.a[0]), INT(1))
            if x.op == "gen" and x.a[1] is TRUE:
                return self.length(x.a[0])
            if x.op == "gen" and x.a[0].op not in ("rangefrom", "cycle"):
                # how many elements pass: all but those that do not
                g = x.a[1]
                lo = g
                while lo.op == "ite":
                    lo = lo.a[2]
                if lo is TRUE:      # it holds where no test does
                    return binop("Sub", "usize", self.length(x.a[0]), raw("len", raw("gen", x.a[0], NOT(g), UNIT, x.a[3])))
                return raw("len", raw("gen", x.a[0], g, UNIT, x.a[3]))
            if x.op in ("enum", "put", "rev", "mapvals", "mapkeys", "mapiter"):
                return self.length(x.a[0])
            if x.op == "el" and self.elen.get(x.a[0]) is not None:
                return INT(self.elen[x.a[0]])
            if x.op == "repeat":
                return x.a[1]
            if x.op == "range":
                return binop("Sub", "usize", x.a[1], x.a[0])
            if x.op == "sub2":
                return binop("Sub", "usize", x.a[2], x.a[1])
            return raw("len", x)
        return lift(f, v)

    # ------------------------------------------------------------ bodies
    def call_body(self, body, args, st):
        if len(self.stack) > self.maxdepth:
            raise Unsupported("inline depth")
        self.seen.add(body.id)
        F = Frame(body, self.nframe)
        self.nframe += 1
        cfg = body.cfg
        if cfg.irreducible:
            raise Unsupported("irreducible CFG in " + body.id)
        env = dict(st.env)
        for i, a in enumerate(args):
            env[("L", F.n, i + 1)] = a
        self.stack.append(body.id)
        try:
            exits, back, rets = self.region(F, 0, set(cfg.rpo), St(st.pc, env), None)
        finally:
            self.stack.pop()
        if not rets:
            # diverges
            return BOT, St(FALSE, st.env)
        vals = []
        for (v, s) in rets:
            env2 = {c: x for c, x in s.env.items() if not (c[0] == "L" and c[1] == F.n)}
            env2[("R", 0, 0)] = v
            vals.append(St(s.pc, env2))
        m = self.merge(vals)
        ret = m.env.pop(("R", 0, 0))
        return ret, m

    def merge(self, states):
        states = [s for s in states if s.pc is not FALSE]
        if not states:
            return St(FALSE, {})
        acc = states[0]
        if len(states) == 1:
            return acc
        pc = acc.pc
        env = dict(acc.env)
        for s in states[1:]:
            npc = OR(pc, s.pc)
            for c in set(env) | set(s.env):
                a, b = env.get(c, BOT), s.env.get(c, BOT)
                if a is not b:
                    env[c] = under(ite(pc, a, b), npc)
            pc = npc
        return St(pc, env)

    def region(self, F, entry, region, st0, loop_header):
        """run a (loop-collapsed) acyclic region; returns exits, backs, rets"""
        cfg = F.body.cfg
        pend = {entry: [st0]}
        exits, back, rets = [], [], []
        skip = set()
        for b in cfg.rpo:
            if b not in region or b in skip or b not in pend:
                continue
            st = self.merge(pend.pop(b))
            if st.pc is FALSE:
                continue
            live = cfg.live_in[b]
            if len(st.env) > 8:
                st = St(st.pc, {c: v for c, v in st.env.items()
                                if not (c[0] == "L" and c[1] == F.n) or c[2] in live or c[2] in cfg.addr})
            if b in cfg.loops and b != loop_header:
                lb = cfg.loops[b]
                skip |= lb
                succ = self.do_loop(F, b, lb, st)
            else:
                succ, r = self.block(F, b, st)
                rets.extend(r)
            for (t, s) in succ:
                if s.pc is FALSE:
                    continue
                if loop_header is not None and t == loop_header:
                    back.append(s)
                elif t in region:
                    pend.setdefault(t, []).append(s)
                else:
                    exits.append((b, t, s))
        return exits, back, rets

    visited = None               # development aid: the blocks that were found reachable

    def block(self, F, b, st):
        st = st.copy()
        if self.visited is not None:
            self.visited.setdefault(F.body.id, set()).add(b)
        blk = F.body.blocks[b]
        for s in blk["s"]:
            if s["k"] == "assign":
                v = self.rvalue(F, s["r"], st, None)
                if s["r"]["k"] == "cast" and self.record:
                    self.narrowing(F, s, st)
                self.store(F, s["p"], v, st)
            elif s["k"] == "setdiscr":
                self.notes.append(("setdiscr", F.body.id))
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)], []
        if k == "drop":
            return [(t["to"], st)], []
        if k == "return":
            v = st.env.get(("L", F.n, 0), UNIT)
            return [], [(v, st)]
        if k in ("unreachable", "resume", "abort"):
            return [], []
        if k == "assert":
            c = self.operand(F, t["c"], st)
            ok = c if t["exp"] else NOT(c)
            self.obl(F, t["kind"], t, st, ok,
                     {kk: (self.operand(F, o, st) if isinstance(o, dict) else o) for kk, o in t["m"].items()},
                     self.opty(F, t["m"].get("a") or t["m"].get("index") or t["c"])["s"])
            if t["kind"] == "ptr":
                return [(t["to"], st)], []
            ok = under(ok, st.pc)
            if ok is TRUE:
                return [(t["to"], st)], []
            # do not add the obligation to the path condition (keeps terms canonical) except
            # when it is decided false
            if ok is FALSE:
                return [], []
            return [(t["to"], st)], []
        if k == "switch":
            d = self.operand(F, t["d"], st)
            d = under(d, st.pc)
            out = []
            rest = TRUE
            for val, tgt in t["tg"]:
                c = self.swcond(d, val, self.prog.types[t["dt"]])
                c2 = AND(rest, c)
                rest = AND(rest, NOT(c))
                if F.body.blocks[tgt]["t"]["k"] == "unreachable" and not F.body.blocks[tgt]["s"]:
                    continue
                s = st.fork(c2)
                if s.pc is not FALSE:
                    out.append((tgt, s))
            if F.body.blocks[t["else"]]["t"]["k"] != "unreachable":
                s = st.fork(rest)
                if s.pc is not FALSE:
                    out.append((t["else"], s))
            elif out:
                # the last listed target is taken by exhaustion
                pass
            return out, []
        if k == "call":
            args = [self.operand(F, a, st) for a in t["a"]]
            fty = None
            if t["f"]["k"] == "const" and "fn" in t["f"]["c"]:
                fn = t["f"]["c"]["fn"]
            else:
                fv = self.operand(F, t["f"], st)
                fn = None
            if fn is not None:
                ret, st = self.call(F, fn, args, st, t)
            else:
                ret, st = self.apply(fv, args, st, F, t)
            if t["to"] is None:
                return [], []
            if st.pc is FALSE:
                return [], []
            self.store(F, t["d"], ret, st)
            return [(t["to"], st)], []
        raise Unsupported("terminator " + k)

    def swcond(self, d, val, ty):
        def f(x):
            if x.op == "discr":
                dd = x.a[0]
                adt = x.a[2]
                vi = self.variant_of(adt, val)
                if vi is None:
                    return FALSE
                n = 2 if adt in TWO_VARIANT else self.prog.nvar.get(adt) or NVAR.get(adt, 99)
                if dd.op == "adt":
                    return BOOL(dd.a[1] == vi)
                return isv(dd, vi, n)
            if x is TRUE:
                return BOOL(val == 1)
            if x is FALSE:
                return BOOL(val == 0)
            if ty["k"] == "bool":
                return x if val == 1 else NOT(x)
            if ty["k"] == "int":
                return eq(x, INT(wrap(val, ty["s"])))
            return eq(x, INT(val))
        if d.op != "ite":
            return f(d)
        return lift(f, d)

    def entry_variant(self, x, st):
        """a map entry as the enum it is: occupied or vacant"""
        if x.op != "entry":
            return x
        m = x.a[0]
        if m.op == "mref":
            m = self.load_cp(("cell", m.a[0]), list(m.a[1]), st)
        return ite(is_some(self.mapget(m, x.a[1])), ADT("std::collections::hash_map::Entry", 0, "Occupied", (x,)),
                   ADT("std::collections::hash_map::Entry", 1, "Vacant", (x,)))

    def variant_of(self, adt, val):
        if adt == "std::cmp::Ordering":
            return {255: 0, -1: 0, 0: 1, 1: 2}.get(val)
        a = self.prog.adts.get(adt)
        if a:
            for i, v in enumerate(a["variants"]):
                if v["d"] == val or (v["d"] < 0 and wrap(val, "i64") == v["d"]):
                    return i
            return None
        return val

    def obl(self, F, kind, t, st, ok, data, ty=None):
        if self.record:
            self.obls.append({"kind": kind, "fn": F.body.id, "sp": t.get("fsp") or t["sp"], "pc": st.pc, "ok": ok, "d": data,
                              "stack": tuple(self.stack), "loops": list(self.loopstack), "ty": ty,
                              "site": (F.body.id, id(t))})

    def narrowing(self, F, s, st):
        r = s["r"]
        f, t = self.opty(F, r["a"])["s"], self.prog.types[r["t"]]["s"]
        if "FloatToInt" in r["ck"] or "IntToInt" in r["ck"] and t in WID and (32 if f == "char" else WID.get(f, 0)) > WID[t]:
            self.casts.append({"fn": F.body.id, "sp": s["sp"], "pc": st.pc, "v": self.operand(F, r["a"], st), "from": f, "to": t,
                               "stack": tuple(self.stack), "loops": list(self.loopstack), "site": (F.body.id, id(s))})

    # ------------------------------------------------------------ loops
    def known_iter(self, it):
        return None

    def unroll(self, F, header, blocks, st):
        """a loop over few known elements: one pass after the other; None if it is not one"""
        n = 0
        for c, v in st.env.items():
            if c[0] == "L" and c[1] == F.n and v.op == "iter":
                k = self.known_iter(v)
                if k is not None:
                    n = max(n, len(k) + 1)
        if not n:
            return None
        rec, notes = self.record, list(self.notes)
        todo = (0, rec) if rec else (0,)
        for r in todo:
            self.record = r
            cur, exits = st.copy(), []
            try:
                for _ in range(n):
                    ex, backs, rets = self.region(F, header, blocks, cur, header)
                    exits += ex
                    cur = self.merge(backs) if backs else St(FALSE, {})
                    if cur.pc is FALSE or rets:
                        break
            finally:
                self.record = rec
            if cur.pc is not FALSE or rets:
                self.notes[:] = notes
                return None
        return [(t, s) for (b, t, s) in exits]

    def do_loop(self, F, header, blocks, st):
        cfg = F.body.cfg
        u = self.unroll(F, header, blocks, st)
        if u is not None:
            return u
        live = cfg.live_in[header]
        M = []
        rec = self.record
        generic_iters = set()
        depth = self.depth
        self.depth += 1
        # values at loop entry, simplified under the entry pc so that they are canonical
        try:
            for attempt in range(12):
                self.record = 0
                res = self.loop_once(F, header, blocks, st, M, generic_iters, depth)
                exits, backs, rets, lvs, ctx, henv = res
                changed = False
                for s in backs:
                    for c, v in s.env.items():
                        if c in M:
                            continue
                        if c[0] == "L" and c[1] == F.n and c[2] not in live and c[2] not in cfg.addr:
                            continue
                        if c not in henv:
                            continue
                        if v is not henv[c]:
                            M.append(c)
                            changed = True
                for c in list(M):
                    lv = lvs.get(c)
                    if lv is not None and lv.op == "itlv":
                        good = len(ctx.nexts.get(c, [])) == 1 and all(
                            s.env.get(c) is raw("itnext", lv) for s in backs)
                        if not good:
                            generic_iters.add(c)
                            changed = True
                if not changed:
                    break
            self.record = rec
            if rec:
                res = self.loop_once(F, header, blocks, st, M, generic_iters, depth)
                exits, backs, rets, lvs, ctx, henv = res
        finally:
            self.record = rec
            self.depth -= 1
        return self.finish_loop(F, header, st, M, exits, backs, lvs, ctx, depth,
                                lambda t: cfg.leads_err(t))

    def loop_once(self, F, header, blocks, st, M, generic, depth):
        env = dict(st.env)
        lvs = {}
        for i, c in enumerate(M):
            init = under(st.env.get(c, BOT), st.pc)
            if init.op == "iter" and c not in generic:
                lv = raw("itlv", depth, i, init)
            else:
                lv = raw("lv", depth, i)
            lvs[c] = lv
            env[c] = lv
        ctx = LoopCtx()
        ctx.depth = depth
        ctx.lvs = lvs
        ctx.fn = F.body.id
        ctx.header = header
        its = [lv for lv in lvs.values() if lv.op == "itlv"]
        ctx.src = fuse_src(its[0].a[2].a[0]) if len(its) == 1 else None
        ctx.inits = {c: under(st.env.get(c, BOT), st.pc) for c in M}
        self.loopstack.append(ctx)
        try:
            exits, backs, rets = self.region(F, header, blocks, St(TRUE, env), header)
        finally:
            self.loopstack.pop()
        ctx.backs = backs
        return exits, backs, rets, lvs, ctx, dict(env)

    def finish_loop(self, F, header, st, M, exits, backs, lvs, ctx, depth, leads_err):
        back = self.merge(backs) if backs else St(FALSE, {})
        itcells = [c for c in M if lvs[c].op == "itlv"]
        src = None
        more = None
        if len(itcells) == 1:
            base, stages = lvs[itcells[0]].a[2].a
            src = fuse_src(base)
            more = raw("more", depth, lvs[itcells[0]].a[1])
        elif len(itcells) > 1:
            # several independent iterators advance together: keep them as a tuple source
            src = raw("multi", tuple(lvs[c].a[2] for c in itcells))
        guard = TRUE
        for g in ctx.guards:
            guard = AND(guard, g)

        def strip(t):
            if more is not None:
                t = assume(t, more, True)
            return t
        cells = [c for c in M if c not in itcells]
        upd = {}
        bpc = strip(back.pc)
        for c in cells:
            u = back.env.get(c, BOT)
            u = strip(u)
            if guard is not TRUE:
                u = ite(guard, u, lvs[c])
            upd[c] = u
        ex = []
        for (frm, t, s) in exits:
            c = s.pc
            exhaust = False
            if more is not None:
                if assume(c, more, True) is FALSE:
                    exhaust = True
                    cond = None
                else:
                    cond = assume(c, more, True)
                    if guard is not TRUE:
                        cond = AND(guard, cond)
            else:
                cond = c
            err = (not exhaust) and leads_err(t)
            ex.append({"t": t, "s": s, "cond": cond, "exhaust": exhaust, "err": err, "frm": frm})
        inits = {c: under(st.env.get(c, BOT), st.pc) for c in M}
        ex0 = ex
        cells, lvs, inits, upd, ex, bpc = split_structs(self, depth, cells, lvs, inits, upd, ex, bpc)
        src, cells, upd, ex = induction(self, depth, src, cells, lvs, inits, upd, ex, guard is TRUE)
        if src is not None:
            inits, upd, ex = totals(depth, cells, lvs, inits, upd, ex)
        if src is None and guard is TRUE:
            inits, upd, ex = rotate(depth, cells, lvs, inits, upd, ex, bpc)
        L = LoopSummary(self, depth, src, cells, lvs, inits, upd, ex)
        self.loop_note(ctx, ex0, st, more, L)
        out = []
        nonerr = [e for e in ex if not e["err"]]
        errs = [e for e in ex if e["err"]]
        if nonerr and errs:
            done = raw("ldone", L.lp_for(self, errs_cond=True, cells=()))
        elif nonerr:
            done = TRUE
        else:
            done = FALSE
        for grp, isn in ((nonerr, True), (errs, False)):
            gpc = AND(st.pc, done if isn else NOT(done))
            rest = TRUE
            grp2 = sorted([e for e in grp if not e["exhaust"]], key=lambda e: L.cc(e["cond"])._k) + [e for e in grp if e["exhaust"]]
            for j, e in enumerate(grp2):
                if j == len(grp2) - 1:
                    at = TRUE
                else:
                    at = L.exit_test(self, e)
                pc = AND(gpc, AND(rest, at))
                rest = AND(rest, NOT(at))
                env = {}
                cfgaddr = F.body.cfg.addr if F is not None else ()
                live = F.body.cfg.live_in.get(e["t"], ()) if F is not None else None
                for c, v in e["s"].env.items():
                    if F is not None and c[0] == "L" and c[1] == F.n and c[2] not in live and c[2] not in cfgaddr:
                        continue
                    if c in itcells:
                        env[c] = raw("itrest", lvs[c].a[2])
                        continue
                    if more is not None:
                        v = assume(v, more, not e["exhaust"])
                    v = under(v, assume(e["s"].pc, more, not e["exhaust"]) if more is not None else e["s"].pc)
                    env[c] = L.exit_value(self, v, e)
                out.append((e["t"], St(pc, env)))
        return out

    def virtual_loop(self, it, step, st, carried_extra=None):
        """consume iterator term `it`: step(elem, St) -> (list of ('cont', St) | ('exit', St, value), ...)
        Returns list of (kind, value, St): ('done', None, St) and ('exit', value, St)"""
        depth = self.depth
        self.depth += 1
        rec = self.record
        M = []
        acc = None
        try:
            for attempt in range(12):
                self.record = 0
                r = self.vl_once(it, step, st, M, depth)
                conts, exits, lvs, ctx, env0 = r
                ch = False
                for s in conts:
                    for c, v in s.env.items():
                        if c not in M and c in env0 and v is not env0[c]:
                            M.append(c)
                            ch = True
                if not ch:
                    break
            self.record = rec
            if rec:
                conts, exits, lvs, ctx, env0 = self.vl_once(it, step, st, M, depth)
        finally:
            self.record = rec
            self.depth -= 1
        base = fuse_src(it.a[0])
        back = self.merge(conts) if conts else St(FALSE, {})
        guard = ctx.guard
        upd = {}
        for c in M:
            u = back.env.get(c, BOT)
            if guard is not TRUE:
                u = ite(guard, u, lvs[c])
            upd[c] = u
        ex = [{"t": None, "s": St(TRUE, {**st.env, **{c: lvs[c] for c in M}}), "cond": None, "exhaust": True, "err": False, "val": None}]
        for (val, s, iserr) in exits:
            cond = s.pc if guard is TRUE else AND(guard, s.pc)
            if cond is FALSE:
                continue
            ex.append({"t": None, "s": s, "cond": cond, "exhaust": False, "err": iserr, "val": val})
        inits = {c: under(st.env.get(c, BOT), st.pc) for c in M}
        ex0 = ex
        cells, lvs, inits, upd, ex, _ = split_structs(self, depth, list(M), lvs, inits, upd, ex, TRUE)
        base, cells, upd, ex = induction(self, depth, base, cells, lvs, inits, upd, ex, guard is TRUE)
        inits, upd, ex = totals(depth, cells, lvs, inits, upd, ex)
        L = LoopSummary(self, depth, base, cells, lvs, inits, upd, ex)
        self.loop_note(ctx, ex0, st, None, L)
        nonerr = [e for e in ex if not e["err"]]
        errs = [e for e in ex if e["err"]]
        done = raw("ldone", L.lp_for(self, errs_cond=True, cells=())) if errs else TRUE
        out = []
        for grp, isn in ((nonerr, True), (errs, False)):
            gpc = AND(st.pc, done if isn else NOT(done))
            rest = TRUE
            grp2 = sorted([e for e in grp if not e["exhaust"]], key=lambda e: L.cc(e["cond"])._k) + [e for e in grp if e["exhaust"]]
            for j, e in enumerate(grp2):
                at = TRUE if j == len(grp2) - 1 else L.exit_test(self, e)
                pc = AND(gpc, AND(rest, at))
                rest = AND(rest, NOT(at))
                env = dict(st.env)
                for c, v in e["s"].env.items():
                    if c in st.env:
                        v = under(v, e["s"].pc)
                        env[c] = L.exit_value(self, v, e)
                val = None
                if e["val"] is not None:
                    val = L.exit_value(self, under(e["val"], e["s"].pc), e)
                out.append(("done" if e["exhaust"] else "exit", val, St(pc, env)))
        return out

    def loop_note(self, ctx, ex, st, more, L):
        """facts about a finished loop for the discipline rules"""
        if not self.record:
            return
        e = FALSE
        for x in ex:
            if x["err"] and x["cond"] is not None:
                e = OR(e, x["cond"])
        ctx.openerr = e
        ctx.more = more
        ctx.outer = list(self.loopstack)
        ctx.pc = st.pc
        ctx.haserr = any(x["err"] for x in ex)
        ctx.done = raw("ldone", L.lp_for(self, errs_cond=True, cells=())) if ctx.haserr else None
        ctx.tick = self.tick()
        self.loops.append(ctx)

    def tick(self):
        return len(self.events) + len(self.loops)

    def vl_once(self, it, step, st, M, depth):
        base, stages = it.a
        env = dict(st.env)
        lvs = {}
        for i, c in enumerate(M):
            lv = raw("lv", depth, i)
            lvs[c] = lv
            env[c] = lv
        ctx = LoopCtx()
        ctx.depth = depth
        ctx.lvs = lvs
        ctx.fn = self.stack[-1] if self.stack else "?"
        ctx.header = None
        ctx.src = fuse_src(base)
        ctx.inits = {c: under(st.env.get(c, BOT), st.pc) for c in M}
        self.loopstack.append(ctx)
        try:
            x, g, s = self.run_stages(base, stages, St(TRUE, env), depth)
            ctx.guard = g
            conts, exits = step(x, s)
        finally:
            self.loopstack.pop()
        ctx.backs = conts
        return conts, exits, lvs, ctx, env

    def elem(self, base, depth):
        el = raw("el", depth)
        src = fuse_src(base)
        self.elen[depth] = src.a[1].a[0] if src.op == "chunks_exact" and src.a[1].op == "int" else None
        return self.elem_of(base, el)

    def elem_of(self, base, el):
        """(element value, guard) of sequence term `base` for the abstract element el"""
        if base.op == "gen":
            src, g, x, h = base.a
            e2, g2 = self.elem_of(src, el)
            m = {raw("elb", h): e2}
            return subst(x, m), AND(g2, subst(g, m))
        if base.op == "zip":
            x = self.elem_sub(base.a[0], raw("fld", el, None, 0, ("tuple", 2)))
            y = self.elem_sub(base.a[1], raw("fld", el, None, 1, ("tuple", 2)))
            return ADT("tuple", 0, None, (x, y)), TRUE
        if base.op == "enum":
            x = self.elem_sub(base.a[0], raw("fld", el, None, 1, ("tuple", 2)))
            return ADT("tuple", 0, None, (raw("fld", el, None, 0, ("tuple", 2)), x)), TRUE
        if base.op == "mapiter":
            return ADT("tuple", 0, None, (raw("fld", el, None, 0, ("tuple", 2)), raw("fld", el, None, 1, ("tuple", 2)))), TRUE
        return el, TRUE

    def elem_sub(self, base, el):
        """element of an operand of zip/enumerate: unfiltered maps are fused (as strip_maps
        does for the source term), a filtered sequence is iterated as it is"""
        if base.op == "gen" and base.a[1] is TRUE:
            e2 = self.elem_sub(base.a[0], el)
            return subst(base.a[2], {raw("elb", base.a[3]): e2})
        if base.op in ("zip", "enum"):
            return self.elem_of(base, el)[0]
        return el

    def run_stages(self, base, stages, st, depth):
        x, guard = self.elem(base, depth)
        return self.on_stages(x, guard, stages, st.fork(guard))

    def on_stages(self, x, guard, stages, st):
        for sg in stages:
            if sg.op == "st_seq":
                x = self.seq_of(x, st)
            elif sg.op == "st_map":
                x, st = self.apply(sg.a[0], [x], st)
            elif sg.op == "st_filter":
                c, st = self.apply(sg.a[0], [x], st)
                guard = AND(guard, c)
                st = st.fork(c)
            elif sg.op == "st_fmap":
                r, st = self.apply(sg.a[0], [x], st)
                c = is_some(r)
                guard = AND(guard, c)
                st = st.fork(c)
                x = under(some_val(r), st.pc)
            elif sg.op == "st_flatopt":
                c = is_some(x)
                guard = AND(guard, c)
                st = st.fork(c)
                x = under(some_val(x), st.pc)
            elif sg.op == "st_flatres":
                c = NOT(is_err(x))
                guard = AND(guard, c)
                st = st.fork(c)
                x = under(ok_val(x), st.pc)
            elif sg.op == "st_const":        # what a generator gives next
                x, st = self.apply(sg.a[0], [], st)
            elif sg.op == "st_inspect":
                _, st = self.apply(sg.a[0], [x], st)
        # the guard is relative; path conditions below it are conditional on it
        return x, guard, st

    def seq_of(self, x, st):
        """a value that is iterated over, as a sequence"""
        def f(y):
            return self.materialize(y, st) if y.op == "iter" else y
        return lift(f, x)

    def materialize(self, it, st):
        """iterator -> base sequence term (pure pipelines)"""
        base, stages = it.a
        if not stages:
            return base
        depth = self.depth
        self.depth += 1
        try:
            x, g, s2 = self.run_stages(base, stages, St(TRUE, dict(st.env)), depth)
        finally:
            self.depth -= 1
        for c, v in s2.env.items():
            if st.env.get(c) is not v:
                self.notes.append(("impure-pipeline", self.stack[-1] if self.stack else "?"))
        return mkgen(fuse_src(base), depth, g, x)

    def settle(self, v, st, call=False):
        """a value that leaves the function, with the lazy iterators in it replaced by the
        sequences they yield and closures by what they compute"""
        if v.op == "ite":
            return ite(v.a[0], self.settle(v.a[1], st, call), self.settle(v.a[2], st, call))
        if v.op == "adt":
            xs = tuple(self.settle(x, st, call) for x in v.a[3])
            return v if xs == v.a[3] else raw("adt", v.a[0], v.a[1], v.a[2], xs)
        if v.op == "iter" and v.a[1]:
            return raw("iter", self.materialize(v, st), ())
        if v.op == "clo" and v.a[0] in self.prog.bodies and self.prog.bodies[v.a[0]].id not in self.stack:
            b = self.prog.bodies[v.a[0]]
            self.nlam = getattr(self, "nlam", 0) + 1
            try:
                x, s2 = self.apply(v, [raw("lamarg", self.nlam, i) for i in range(b.argc - 1)], st.fork(TRUE))
            finally:
                self.nlam -= 1
            if all(st.env.get(c) is y for c, y in s2.env.items() if c in st.env):
                return raw("lam", self.nlam + 1, b.argc - 1, self.settle(x, st, call))
        return v

    # ------------------------------------------------------------ calls
    def apply(self, f, args, st, F=None, t=None):
        """call a function value"""
        f = under(f, st.pc)
        if f.op == "clo":
            body = self.prog.bodies.get(f.a[0])
            if body is None:
                return raw("call", "closure?", f, *args), st
            cl = f
            # env param: by value tuple of captures; closures take self by ref or value
            if body.id in self.stack and self.stack.count(body.id) > 2:
                return raw("call", "rec:" + body.id, *args), st
            envt = raw("adt", "cloenv", 0, None, f.a[1])
            cell = ("H", "c%d" % self.nheap)
            self.nheap += 1
            st = st.copy()
            ty = body.lty(1)
            if ty["k"] == "ref" and ty["mut"]:
                st.env[cell] = envt
                a0 = raw("mref", cell, ())
            else:
                a0 = envt
            n = body.argc - 1
            aa = list(args)
            ret, st2 = self.call_body(body, [a0] + aa[:n], st)
            st2.env.pop(cell, None)
            return ret, st2
        if f.op == "fn":
            info = self.fninfo[f.a]
            return self.call(F, info, args, st, t)
        if f.op == "ite":
            ch = f
            atom = f.a[0]
            r1, s1 = self.apply(f.a[1], args, st.fork(atom), F, t)
            r2, s2 = self.apply(f.a[2], args, st.fork(NOT(atom)), F, t)
            s1.env[("R", 0, 1)] = r1
            s2.env[("R", 0, 1)] = r2
            m = self.merge([s1, s2])
            r = m.env.pop(("R", 0, 1), BOT)
            return r, m
        return self.opaque_call("apply", [f] + list(args), st)

    def cond_apply(self, cond, f, args, st):
        """apply f under cond; returns (value (meaningful under cond), merged St)"""
        s1 = st.fork(cond)
        if s1.pc is FALSE:
            return BOT, st
        v, s2 = self.apply(f, [under(a, s1.pc) for a in args], s1)
        if cond is TRUE:
            return v, s2
        if all(st.env.get(c) is x for c, x in s2.env.items() if c in st.env):
            return v, st
        m = self.merge([s2, st.fork(NOT(cond))])
        m = St(st.pc, m.env)
        return v, m

    def opaque_call(self, path, args, st, decl=None):
        cargs = []
        mrefs = []
        for i, a in enumerate(args):
            a = under(a, st.pc)
            if a.op == "mref":
                v = under(self.load_cp(("cell", a.a[0]), list(a.a[1]), st), st.pc)
                cargs.append(v)
                mrefs.append((i, a))
            else:
                inner = collect(a, lambda x: x.op == "mref")
                if inner:
                    m = {}
                    for r in inner:
                        m[r] = raw("refto", under(self.load_cp(("cell", r.a[0]), list(r.a[1]), st), st.pc))
                        mrefs.append((i, r))
                    if collect(a, lambda x: x.op == "clo"):
                        self.notes.append(("closure-with-state", path))
                    a = subst(a, m)
                cargs.append(self.settle(a, st, True) if not inner else a)
        c = raw("call", path, *cargs)
        if mrefs:
            st = st.copy()
            for j, (i, r) in enumerate(mrefs):
                self.store_cp(("cell", r.a[0]), list(r.a[1]), raw("out", c, i if j == 0 or True else j), st)
        if self.record:
            self.ticks.append(self.tick())
            self.events.append((path, c, st.pc, tuple(self.stack), list(self.loopstack)))
        return c, st

    def is_opaque(self, path):
        return path in self.opaque or (self.opaque_pred is not None and self.opaque_pred(path))

    def call(self, F, fn, args, st, t):
        path = ALIASES.get(fn["path"], fn["path"])
        decl = ALIASES.get(fn["decl"], fn["decl"])
        if self.record and F is not None:
            self.calls.append((F.body.id, path, t.get("fsp") if t else None))
        if self.is_opaque(path):
            return self.opaque_call(path, args, st)
        if "ctor" in fn:
            ops = list(args)
            return self.mkadt(fn["ctor"], fn["ctor_vi"], fn["ctor_v"], ops), st
        m = self.model(F, fn, path, decl, args, st, t)
        if m is not None:
            return m
        if fn["local"] and path in self.prog.bodies:
            body = self.prog.bodies[path]
            if path in self.stack or len(self.stack) > self.maxdepth:
                return self.opaque_call("rec:" + path, args, st)
            return self.call_body(body, args, st)
        self.ext_obl(F, fn, args, st, t)
        return self.opaque_call(path, args, st)

    def ext_obl(self, F, fn, args, st, t):
        pass

    # models are attached by models.py
    def model(self, F, fn, path, decl, args, st, t):
        return None


def fuse_src(b):
    """the sequence a fused pipeline really iterates over"""
    while b.op == "gen":
        b = b.a[0]
    if b.op == "zip":
        return raw("zip", strip_maps(b.a[0]), strip_maps(b.a[1]))
    if b.op == "enum":
        return raw("enum", strip_maps(b.a[0]))
    return b


def strip_maps(b):
    while b.op == "gen" and b.a[1] is TRUE:
        b = b.a[0]
    if b.op in ("zip", "enum"):
        return fuse_src(b)
    return b


_bh = {}


def bheight(t):
    """largest bound-variable height inside t (0 if none); binders: gen (its own), lp"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return max([bheight(y) for y in t] or [0])
        return 0
    r = _bh.get(t)
    if r is None:
        r = 0
        if t.op in ("elb", "lvb", "moreb", "itb", "lp"):
            r = t.a[0]
        elif t.op == "gen":
            r = t.a[3]
        for x in t.a:
            if isinstance(x, (T, tuple)):
                r = max(r, bheight(x))
        _bh[t] = r
    return r


def close_depth(d, *ts):
    """rename the depth-d loop symbols of the terms to height-named ones"""
    h = 1 + max([bheight(t) for t in ts] or [0])

    def isd(x):
        return x.op in ("el", "lv", "more", "itlv") and x.a[0] == d
    m = {}
    for t in ts:
        for y in collect(t, isd):
            if y.op == "el":
                m[y] = raw("elb", h)
            elif y.op == "lv":
                m[y] = raw("lvb", h, *y.a[1:])
            elif y.op == "more":
                m[y] = raw("moreb", h, *y.a[1:])
            else:
                m[y] = raw("itb", h, *y.a[1:])
    return h, m


def mkgen(src, depth, g, x):
    el = raw("el", depth)
    if g is TRUE and (x is el):
        return src
    if src.op in ("enum", "zip", "mapiter"):
        e, _ = (ADT("tuple", 0, None, (raw("fld", el, None, 0, ("tuple", 2)), raw("fld", el, None, 1, ("tuple", 2)))), 0)
        if g is TRUE and x is e:
            return src
    if src.op == "lpv":
        r = fuse_lpv(src, el, g, x)
        if r is not None:
            return r
    h, m = close_depth(depth, g, x, src)
    return raw("gen", src, subst(g, m), subst(x, m), h)


def fuse_lpv(v, el, g, x):
    """elements picked from and computed from what a loop pushed: push those right away"""
    lp, tag, c = v.a
    h, src, inits, upds, nconds, econd = lp.a
    if tag.op != "done" or c.op != "lvb" or c.a[0] != h or not isinstance(c.a[1], int) or inits[c.a[1]].op != "vecnil":
        return None
    k, d, n = c.a[1], -9, len(inits)
    lvs = {i: raw("lv", d, "f%d" % i) for i in range(n)}
    m = {raw("elb", h): raw("el", d)}
    m.update({raw("lvb", h, i): lvs[i] for i in range(n)})
    others = [subst(t, m) for i, t in enumerate(upds) if i != k] + [subst(t, m) for t in nconds] + [subst(econd, m)]
    if any(contains(t, lambda y: y is lvs[k] or y.op in ("lvb", "elb", "moreb", "itb") and y.a[0] == h) for t in others):
        return None
    bad = []

    def f(u):
        if u is lvs[k] or u is BOT:
            return u
        if u.op == "push" and u.a[0] is lvs[k] and not contains(u.a[1], lambda y: y is lvs[k]):
            s = {el: u.a[1]}
            return ite(subst(g, s), raw("push", lvs[k], subst(x, s)), lvs[k])
        bad.append(u)
        return u
    new = lift(f, subst(upds[k], m))
    if bad:
        return None
    upd = {i: new if i == k else subst(upds[i], m) for i in range(n)}
    exits = [{"err": False, "exhaust": False, "cond": subst(t, m)} for t in nconds]
    if econd is not FALSE:
        exits.append({"err": True, "exhaust": False, "cond": subst(econd, m)})
    ls = LoopSummary(None, d, src, list(range(n)), lvs, dict(enumerate(inits)), upd, exits)
    lp = ls.lp_for(None, cells=(k,))
    if len(lp.a[2]) == 1:
        z = simplify_acc(lp)
        if z is not None:
            return z
    return raw("lpv", lp, raw("done"), ls._tr(ls.ksym[k]))


def is_msg(x):
    return contains(x, lambda y: y.op in ("str", "fmt") or y.op == "call" and "format" in str(y.a[0])) or x.op in ("str", "fmt")


def a_is_struct(e, d):
    a = e.prog.adts.get(d)
    return a is not None and a["kind"] != "Enum"


def raw_discr(v, pty):
    def f(x):
        return raw("discr", x, "isize", pty.get("def", "?"))
    return lift(f, v)


def guarded_leaves(t, cond=TRUE):
    if t.op == "ite":
        return guarded_leaves(t.a[1], AND(cond, t.a[0])) + guarded_leaves(t.a[2], AND(cond, NOT(t.a[0])))
    return [(cond, t)]


# library functions under several names
ALIASES = {
    "std::fs::canonicalize": "std::path::Path::canonicalize", "std::fs::read_dir": "std::path::Path::read_dir",
    "std::fs::metadata": "std::path::Path::metadata", "std::fs::symlink_metadata": "std::path::Path::symlink_metadata",
    "std::fs::read_link": "std::path::Path::read_link", "std::fs::exists": "std::path::Path::try_exists",
}
for _r in ("std::io::BufReader<R>", "std::fs::File", "&std::fs::File", "&'_ std::fs::File"):
    ALIASES["<%s as std::io::Read>::read_to_end" % _r] = "std::io::Read::read_to_end"


class Frame(object):
    def __init__(self, body, n):
        self.body = body
        self.n = n


class LoopSummary(object):
    """canonical description of one loop"""

    def __init__(self, eng, depth, src, cells, lvs, inits, upd, exits):
        self.depth = depth
        self.src = src
        self.cells = cells
        self.exits = exits
        syms = [lvs[c] for c in cells]
        col = {}
        for c in cells:
            col[c] = inits[c]._d
        import hashlib
        for r in range(2):
            m = {lvs[c]: raw("lvc", col[c]) for c in cells}
            ncol = {}
            for c in cells:
                ncol[c] = hashlib.sha1(col[c] + subst(upd[c], m)._d).digest()
            col = ncol
        order = sorted(cells, key=lambda c: col[c])
        self.order = order
        self.canon = {lvs[c]: raw("lv", depth, "k%d" % i) for i, c in enumerate(order)}
        self.ksym = {c: raw("lv", depth, "k%d" % i) for i, c in enumerate(order)}
        self.inits = {c: inits[c] for c in cells}
        self.upd = {c: subst(upd[c], self.canon) for c in cells}
        self.econd = FALSE
        for e in exits:
            if e["err"]:
                self.econd = OR(self.econd, self.cc(e["cond"]))
        self.nconds = []
        for e in exits:
            if not e["err"] and not e["exhaust"]:
                self.nconds.append(self.cc(e["cond"]))
        self.nconds = sorted(set(self.nconds), key=lambda t: t._k)

    def cc(self, t):
        return subst(t, self.canon)

    def deps(self, start):
        """closure of cells needed"""
        need = []
        inv = {self.ksym[c]: c for c in self.order}

        def add(t):
            for x in collect(t, lambda y: y in inv):
                c = inv[x]
                if c not in need:
                    need.append(c)
                    add(self.upd[c])
        for t in start:
            add(t)
        add(self.econd)
        for n in self.nconds:
            add(n)
        return [c for c in self.order if c in need]

    def lp_for(self, eng, errs_cond=True, cells=(), extra=()):
        D = self.deps(list(extra) + [self.ksym[c] for c in cells])
        d = self.depth
        m = {self.ksym[c]: raw("lv", d, i) for i, c in enumerate(D)}
        upds = [subst(self.upd[c], m) for c in D]
        ncs = [subst(n, m) for n in self.nconds]
        ec = subst(self.econd, m)
        src = self.src if self.src is not None else UNIT
        # index loops over 0..len(v) that only read v[i] iterate over v
        ext = [subst(x, m) for x in extra]
        src, rw = index_src(d, src, upds + ncs + [ec] + ext)
        if rw:
            upds = [subst(u, rw) for u in upds]
            ncs = [subst(u, rw) for u in ncs]
            ec = subst(ec, rw)
            ext = [subst(u, rw) for u in ext]
        h, cm = close_depth(d, *(upds + ncs + [ec] + ext))
        lp = raw("lp", h, src,
                 tuple(self.inits[c] for c in D), tuple(subst(u, cm) for u in upds),
                 tuple(sorted((subst(n, cm) for n in ncs), key=lambda t: t._k)), subst(ec, cm))

        def tr(x):
            x = subst(x, m)
            if rw:
                x = subst(x, rw)
            return subst(x, cm)
        self._tr = tr
        return lp

    def exit_test(self, eng, e):
        """the loop is left through exit e"""
        lp = self.lp_for(eng, errs_cond=True, cells=())
        return raw("lexit", lp, self._tr(self.cc(e["cond"])))

    def exit_value(self, eng, v, e):
        v = subst(v, self.canon)
        bound = set(self.ksym.values())
        d = self.depth

        def isb(x):
            return x in bound or (x.op in ("el", "itlv") and x.a[0] == d) or (x.op == "more" and x.a[0] == d)
        if not contains(v, isb):
            return v

        def fin(x):
            ex = [x]
            if not e["exhaust"]:
                ex.append(self.cc(e["cond"]))
            lp = self.lp_for(eng, extra=tuple(ex))
            if e["exhaust"] and len(lp.a[2]) == 1 and x in bound:
                z = simplify_acc(lp)
                if z is not None:
                    return z
            tagc = raw("done") if e["exhaust"] else self._tr(self.cc(e["cond"]))
            return raw("lpv", lp, tagc, self._tr(x))

        def leaf(x):
            if not contains(x, isb):
                return x
            if x.op == "adt":
                return ADT(x.a[0], x.a[1], x.a[2], tuple(wrapv(y) for y in x.a[3]))
            if x.op in ("bin", "cast", "fcast") and not any(isinstance(y, T) and contains(y, lambda z: z.op == "ite") for y in x.a):
                return rebuild(x.op, tuple(wrapv(y) if isinstance(y, T) else y for y in x.a))
            return fin(x)

        def wrapv(x):
            # conditions over bound symbols cannot be lifted out: wrap whole value
            if x.op == "ite" and any(contains(a, isb) for a in atoms_only(x)):
                return fin(x)
            return lift(leaf, x)
        return wrapv(v)


def split_structs(eng, d, cells, lvs, inits, upd, ex, bpc):
    """A carried struct, tuple or small array whose parts are updated one by one is carried as
    its parts."""
    done = set()
    fresh = 0
    for _ in range(24):
        hit = None
        for c in cells:
            i = inits[c]
            if c in done or i.op != "adt" or not 1 <= len(i.a[3]) <= 24 or any(x is BOT for x in i.a[3]):
                continue
            ad = eng.prog.adts.get(i.a[0])
            if i.a[0] not in ("tuple", "array") and (ad is None or ad["kind"] != "Struct"):
                continue
            done.add(c)
            hit = c
            break
        if hit is None:
            return cells, lvs, inits, upd, ex, bpc
        c, i = hit, inits[hit]
        parts = []
        for k in range(len(i.a[3])):
            parts.append((("P", c, k), raw("lv", d, "p%d" % fresh)))
            fresh += 1
        m = {lvs[c]: ADT(i.a[0], i.a[1], i.a[2], tuple(x for _, x in parts))}
        u = subst(upd[c], m)

        def shape(x):
            return x.op == "adt" and x.a[:3] == i.a[:3] and len(x.a[3]) == len(parts)
        if not all(shape(x) for _, x in guarded_leaves(u)):
            continue
        nup = {y: subst(v, m) for y, v in upd.items() if y != c}
        nin = {y: v for y, v in inits.items() if y != c}
        nl = dict(lvs)
        for k, (pc, pl) in enumerate(parts):
            nup[pc] = lift(lambda x: x.a[3][k], u)
            nin[pc] = i.a[3][k]
            nl[pc] = pl
        nex = []
        for e in ex:
            e = dict(e)
            if e["cond"] is not None:
                e["cond"] = subst(e["cond"], m)
            e["s"] = St(subst(e["s"].pc, m), {y: subst(v, m) for y, v in e["s"].env.items()})
            if e.get("val") is not None:
                e["val"] = subst(e["val"], m)
            nex.append(e)
        # parts that never change
        same = {pl: nin[pc] for pc, pl in parts if nup[pc] is pl}
        if same:
            nup = {y: subst(v, same) for y, v in nup.items() if nl[y] not in same}
            for e in nex:
                if e["cond"] is not None:
                    e["cond"] = subst(e["cond"], same)
                e["s"] = St(subst(e["s"].pc, same), {y: subst(v, same) for y, v in e["s"].env.items()})
                if e.get("val") is not None:
                    e["val"] = subst(e["val"], same)
        cells = [y for y in cells if y != c] + [pc for pc, pl in parts if pl not in same]
        bpc = subst(subst(bpc, m), same)
        lvs, inits, upd, ex = nl, nin, nup, nex
    return cells, lvs, inits, upd, ex, bpc


def invariant(t, d):
    return not contains(t, lambda x: x.op in ("lv", "el", "itlv", "more") and x.a[0] == d)


def rotate(d, cells, lvs, inits, upd, ex, bpc):
    """A loop that tests what it carries on before every pass, where the first test cannot end
    it, is the loop that makes this test after every pass.  A cell that the test shows to be
    Some is replaced by its payload."""
    lv = {lvs[c]: c for c in cells}

    def state(t):
        return all(x in lv for x in collect(t, lambda y: y.op in ("lv", "el", "itlv", "more") and y.a[0] == d))
    for e in ex:
        k = e["cond"]
        if e["err"] or e["exhaust"] or k is None or k is TRUE or not state(k) or contains(k, lambda y: y.op == "call"):
            continue
        if any(e["s"].env.get(c, lvs[c]) is not lvs[c] for c in cells):
            continue
        if subst(k, {lvs[c]: inits[c] for c in cells}) is not FALSE:
            continue
        on = NOT(k)
        upd = {c: under(upd[c], on) for c in upd}
        nxt = {lvs[c]: upd[c] for c in cells}
        nex = []
        for x in ex:
            y = dict(x)
            if x is not e:
                y["cond"] = under(y["cond"], on) if y["cond"] is not None else None
                y["s"] = St(under(y["s"].pc, on), {c: under(v, on) for c, v in y["s"].env.items()})
            else:
                y["cond"] = AND(under(bpc, on), subst(k, nxt))
                y["s"] = St(y["cond"], {c: subst(v, nxt) for c, v in y["s"].env.items()})
            nex.append(y)
        some = None
        if k.op == "isv" and k.a[1] == 0 and k.a[0] in lv:
            some = lv[k.a[0]]
        elif k.op == "ite" and k.a[1] is FALSE and k.a[2] is TRUE and k.a[0].op == "isv" and k.a[0].a[1] == 1 and k.a[0].a[0] in lv:
            some = lv[k.a[0].a[0]]
        if some is not None and inits[some].op == "adt" and inits[some].a[0] == "std::option::Option":
            i = inits[some]
            m = {lvs[some]: ADT(i.a[0], 1, i.a[2], (lvs[some],))}
            upd = {c: subst(v, m) for c, v in upd.items()}
            upd[some] = fld(upd[some], 1, 0, (i.a[0], 1))
            inits = dict(inits)
            inits[some] = i.a[3][0]
            nex = [dict(y, cond=None if y["cond"] is None else subst(y["cond"], m),
                        s=St(subst(y["s"].pc, m), {c: subst(v, m) for c, v in y["s"].env.items()})) for y in nex]
        return inits, upd, nex
    return inits, upd, ex


def totals(d, cells, lvs, inits, upd, ex):
    """An unsigned total a loop only adds to starts from zero; what it started from is added to
    the result."""
    for c in cells:
        lv, i = lvs[c], inits[c]
        if i.op == "int" and i.a[0] == 0 or i is BOT:
            continue
        tys = set()

        def rest(u):
            """u without its one term lv; None if it is not of that shape"""
            if u is lv:
                return INT(0)
            if u.op == "bin" and u.a[0] == "Add" and u.a[1] in WID and u.a[1][0] == "u":
                a, b = u.a[2], u.a[3]
                for x, y in ((a, b), (b, a)):
                    if not contains(y, lambda t: t is lv):
                        r = rest(x)
                        if r is not None:
                            tys.add(u.a[1])
                            return binop("Add", u.a[1], r, y)
            return None

        def go(u):
            if u.op == "ite":
                if contains(u.a[0], lambda t: t is lv):
                    return None
                a, b = go(u.a[1]), go(u.a[2])
                return None if a is None or b is None else ite(u.a[0], a, b)
            if u is BOT:
                return u
            r = rest(u)
            return None if r is None else raw("plus", r)
        if not contains(upd[c], lambda t: t is lv):
            continue
        g = go(upd[c])
        if g is None or len(tys) != 1:
            continue
        ty = tys.pop()
        m = {lv: binop("Add", ty, i, lv)}
        inits = dict(inits)
        inits[c] = INT(0)
        upd = {y: subst(v, m) for y, v in upd.items()}
        upd[c] = lift(lambda x: binop("Add", ty, lv, x.a[0]) if x.op == "plus" else x, g)
        nex = []
        for e in ex:
            e = dict(e)
            if e["cond"] is not None:
                e["cond"] = subst(e["cond"], m)
            e["s"] = St(subst(e["s"].pc, m), {y: subst(v, m) for y, v in e["s"].env.items()})
            if e.get("val") is not None:
                e["val"] = subst(e["val"], m)
            nex.append(e)
        ex = nex
    return inits, upd, ex


def induction(eng, d, src, cells, lvs, inits, upd, ex, whole):
    """Loops that count: a counter that starts at a known value and moves by one in every pass
    is expressed by the position in the sequence iterated over; a loop left by comparing
    its counter with a bound that does not change becomes a loop over a range."""
    el = raw("el", d)

    def steps():
        for c in cells:
            u, lv = upd[c], lvs[c]
            if u.op == "bin" and u.a[1] in WID:
                if u.a[0] == "Add" and (u.a[2] is INT(1) and u.a[3] is lv or u.a[3] is INT(1) and u.a[2] is lv):
                    yield c, lv, inits[c], 1, u.a[1], True
                elif u.a[0] == "Sub" and u.a[2] is lv and u.a[3] is INT(1):
                    yield c, lv, inits[c], -1, u.a[1], True
            elif u.op == "push" and u.a[0] is lv:
                yield c, raw("len", lv), eng.length(inits[c]), 1, "usize", False

    def rewrite(m, atom, val, skip=None, last=None):
        """apply the replacement m (for another way out: `last`) everywhere"""
        def sub(t, mm=m):
            if atom is not None and mm is m:
                t = assume(t, atom, val)
            return subst(t, mm)
        nup = {c: sub(upd[c]) for c in upd}
        nex = []
        for e in ex:
            e = dict(e)
            mm = last if e is skip or e["exhaust"] else m
            if e["cond"] is not None:
                e["cond"] = sub(e["cond"])
            s = e["s"]
            e["s"] = St(sub(s.pc, mm) if mm is m else s.pc, {c: sub(v, mm) for c, v in s.env.items()})
            if e.get("val") is not None:
                e["val"] = sub(e["val"], mm)
            nex.append(e)
        return nup, nex

    if src is None:
        for c, x, init, step, ty, cell in steps():
            hit = None
            for e in ex:
                if e["err"] or e["exhaust"] or e["cond"] is None:
                    continue
                k = e["cond"]
                if k.op == "ite" and k.a[1] is FALSE and k.a[2] is TRUE:
                    atom, out = k.a[0], False
                elif k.op in ("lt", "eq"):
                    atom, out = k, True
                else:
                    continue
                if any(e["s"].env.get(c2) is not lvs[c2] for c2 in cells if c2 in e["s"].env):
                    continue
                unsigned = ty[0] == "u"
                if step == 1:
                    if atom.op == "lt" and not out and atom.a[0] is x and invariant(atom.a[1], d):
                        hit = (e, atom, False, atom.a[1])
                    elif atom.op == "eq" and out and x in atom.a and unsigned and init is INT(0):
                        n = atom.a[0] if atom.a[1] is x else atom.a[1]
                        if invariant(n, d):
                            hit = (e, atom, True, n)
                elif unsigned:
                    if atom.op == "eq" and out and x in atom.a and INT(0) in atom.a or atom.op == "lt" and out and atom.a[0] is x and atom.a[1] is INT(1) or \
                            atom.op == "lt" and not out and atom.a[0] is INT(0) and atom.a[1] is x:
                        hit = (e, atom, out, None)
                if hit:
                    break
            if not hit or not invariant(init, d):
                continue
            e, atom, out, n = hit
            if step == 1:
                src = raw("range", init, n)
                m = {x: el}
                last = {x: n if init is INT(0) and ty[0] == "u" else ite(lt(n, init), init, n)}
            else:
                src = raw("range", INT(0), init)
                m = {x: binop("Sub", ty, init, el)}
                last = {x: INT(0)}
            ex = [dict(y, exhaust=True, cond=None) if y is e else y for y in ex]
            upd, ex = rewrite(m, atom, not out, None, last)
            if cell:
                cells = [y for y in cells if y is not c]
                upd.pop(c)
            break
    if src is None or not whole or src.op in ("unit", "multi", "rangefrom", "rangei", "cycle", "repeat"):
        return src, cells, upd, ex
    for _ in range(4):
        for c, x, init, step, ty, cell in list(steps()):
            if step != 1 or not invariant(init, d):
                continue
            uses = [upd[y] for y in cells if y is not c or not cell] + [e["cond"] for e in ex if e["cond"] is not None] + [
                v for e in ex for v in e["s"].env.values()] + [e["val"] for e in ex if e.get("val") is not None]
            if not any(contains(t, lambda y: y is x) for t in uses):
                continue
            if src.op == "range":
                if src.a[0] is not INT(0):
                    continue
                pos, m, n = el, {}, src.a[1]
            elif src.op == "enum":
                pos, m, n = raw("fld", el, None, 0, ("tuple", 2)), {}, eng.length(src)
            else:
                n = eng.length(src)
                src = raw("enum", src)
                pos, m = raw("fld", el, None, 0, ("tuple", 2)), {el: raw("fld", el, None, 1, ("tuple", 2))}
            if m:
                upd, ex = rewrite(m, None, None, None, m)
            upd, ex = rewrite({x: binop("Add", ty, init, pos)}, None, None, None, {x: binop("Add", ty, init, n)})
            if cell:
                cells = [y for y in cells if y is not c]
                upd.pop(c)
            break
        else:
            break
    return src, cells, upd, ex


def index_src(d, src, ts):
    el = raw("el", d)
    if src.op == "enum":
        # the position is not used
        at1 = raw("fld", el, None, 1, ("tuple", 2))
        probe = raw("lv", d, "probe")
        if all(not contains(subst(t, {at1: probe}), lambda x: x is el) for t in ts):
            return src.a[0], {at1: el}
    if src.op == "rangei" and src.a[0] is INT(1) and not any(contains(t, lambda x: x is el) for t in ts):
        return raw("range", INT(0), src.a[1]), {}
    if src.op == "range" and src.a[0] is INT(0) and src.a[1].op == "bits" and len(src.a[1].a[1]) == 1:
        to, w, x, frm, xw = src.a[1].a[1][0]
        if to == 0 and frm == 0 and w == xw and not any(contains(t, lambda y: y is el) for t in ts):
            return raw("range", INT(0), x), {}       # so many times
    if src.op == "range" and src.a[0] is INT(0) and src.a[1].op == "len":
        v = src.a[1].a[0]
        hit = raw("idx", v, el)
        probe = raw("lv", d, "probe")
        if all(not contains(subst(t, {hit: probe}), lambda x: x is el) for t in ts):
            return v, {hit: el}
    if src.op == "range":
        w = windows(src, el, ts)
        if w is not None and len(w) == 1:
            (v, c), hits = w.popitem()
            probe = raw("lv", d, "probe")
            m = {h: probe for h in hits}
            if all(not contains(subst(t, m), lambda x: x is el) for t in ts):
                n = src.a[1] if src.a[0] is INT(0) else binop("Sub", "usize", src.a[1], src.a[0])
                lo = src.a[0] if c is INT(0) else binop("Add", "usize", src.a[0], c)
                return raw("sub2", v, lo, binop("Add", "usize", lo, n)), {h: el for h in hits}
    if src.op == "zip" and all(x.op == "sub2" for x in src.a):
        # equally long windows read in step: by position
        (v, s, t), (w, p, q) = src.a[0].a, src.a[1].a
        n = binop("Sub", "usize", t, s)
        if n is binop("Sub", "usize", q, p) and n.op != "len":
            m = {raw("fld", el, None, i, ("tuple", 2)): raw("idx", x, binop("Add", "usize", o, el))
                 for i, (x, o) in enumerate(((v, s), (w, p)))}
            probe = raw("lv", d, "probe")
            if all(not contains(subst(t, {k: probe for k in m}), lambda x: x is el) for t in ts):
                return raw("range", INT(0), n), m
    return src, None


def windows(src, el, ts):
    """{(sequence, offset): [element reads]} when the position is used in v[position + offset]"""
    out = {}
    for t in ts:
        for x in collect(t, lambda y: y.op == "idx" and contains(y.a[1], lambda z: z is el)):
            v, i = x.a
            if contains(v, lambda z: z is el):
                return None
            if i is el:
                c = INT(0)
            elif i.op == "bin" and i.a[0] == "Add" and (i.a[2] is el or i.a[3] is el):
                c = i.a[3] if i.a[2] is el else i.a[2]
                if contains(c, lambda z: z is el or z.op == "lv" and z.a[0] == el.a[0]):
                    return None
            else:
                return None
            out.setdefault((v, c), []).append(x)
    return out or None


def atoms_only(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == "ite":
            out.add(x.a[0])
            st.extend(x.a[1:])
    return out


def simplify_acc(lp):
    """accumulating push loop  ==  init ++ [ x | el in src, guard ]"""
    h, src, inits, upds, nconds, econd = lp.a
    if nconds:
        return None
    lv = raw("lvb", h, 0)
    u = upds[0]
    g = TRUE
    if econd is FALSE and inits[0] in (TRUE, FALSE):
        # a flag that stays set: does any element satisfy the condition?
        c = assume(u, lv, inits[0] is TRUE)
        stays = assume(u, lv, inits[0] is not TRUE)
        if stays is NOT(inits[0]) and c.op != "true" and c.op != "false" and not contains(c, lambda x: x.op == "lvb" and x.a[0] == h):
            hit = NOT(c) if inits[0] is TRUE else c
            r = raw("lexit", raw("lp", h, src, (), (), (hit,), FALSE), hit)
            return NOT(r) if inits[0] is TRUE else r
    if econd is FALSE and src.op in ("sym", "fld", "call", "idx", "out") and not contains(u, lambda x: x.op == "lvb" and x.a[0] == h) and len(inits) == 1:
        # only the last pass counts
        n = raw("len", src)
        return ite(eq(n, INT(0)), inits[0], subst(u, {raw("elb", h): raw("idx", src, binop("Sub", "usize", n, INT(1)))}))
    if u.op == "ite":
        # guard ? push(lv, x) : lv
        def cond(t):
            if t.op == "ite":
                return ite(t.a[0], cond(t.a[1]), cond(t.a[2]))
            return FALSE if t is lv else TRUE
        g = cond(u)
        u = under(u, g)
    init = inits[0]
    if u.op in ("push", "ext") and u.a[0] is lv and not contains(u.a[1], lambda x: x is lv) and not contains(g, lambda x: x is lv):
        x = u.a[1]
        # under success of the loop the error condition is false
        if econd is not FALSE:
            if contains(econd, lambda y: y is lv):
                return None
            x = under(x, NOT(econd))
            g = under(g, NOT(econd))
        el = raw("elb", h)
        dd = -1
        g1, x1 = subst(g, {el: raw("el", dd)}), subst(x, {el: raw("el", dd)})
        if u.op == "push":
            return mkext(init, mkgen(src, dd, g1, x1))
        if g1 is TRUE or True:
            return mkext(init, raw("flat", mkgen(src, dd, g1, x1)))
    if u.op == "mapput" and u.a[0] is lv and g is TRUE and not contains(u.a[1], lambda x: x is lv) and not contains(u.a[2], lambda x: x is lv) and not contains(econd, lambda y: y is lv):
        el = raw("elb", h)
        x = ADT("tuple", 0, None, (u.a[1], u.a[2]))
        if econd is not FALSE:
            x = under(x, NOT(econd))
            x = ADT("tuple", 0, None, tuple(under(y, NOT(econd)) for y in x.a[3]))
        return mkmext(init, mkgen(src, -1, TRUE, subst(x, {el: raw("el", -1)})))
    return None


def mkmext(init, g):
    if g.op == "mapiter" and init.op == "mapnil":
        return g.a[0]
    return raw("mapext", init, g)


def mkext(init, g):
    if init.op == "vecnil":
        return g
    if g.op == "vecnil":
        return init
    return raw("ext", init, g)
