"""Program model: bodies, types, CFG facts (dominators, natural loops, liveness)."""
import re
import terms


class Body(object):
    def __init__(self, prog, j, promoted_of=None):
        self.prog = prog
        self.j = j
        self.id = j.get("id", "?")
        b = j["body"] if "body" in j else j
        self.argc = b["argc"]
        self.locals = b["locals"]
        self.blocks = b["blocks"]
        self.name = j.get("name", "{closure}")
        self.sp = j.get("sp")
        self._cfg = None

    def lty(self, l):
        return self.prog.types[self.locals[l]["t"]]

    # -------------------------------------------------- CFG
    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t["k"]
        if k == "goto" or k == "drop" or k == "assert":
            out = [t["to"]]
        elif k == "switch":
            out = [x[1] for x in t["tg"]] + [t["else"]]
        elif k == "call":
            out = [t["to"]] if t["to"] is not None else []
        else:
            out = []
        r = []
        for o in out:
            if o not in r and self.blocks[o]["t"]["k"] != "unreachable":
                r.append(o)
        return r

    def callees(self):
        """ids of local functions and closures this body calls, mentions or creates"""
        if getattr(self, "_callees", None) is None:
            out = set()
            st = [self.blocks] + [x["body"] if "body" in x else x for x in self.j.get("promoted", [])]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    f = x.get("fn")
                    if isinstance(f, dict) and "path" in f:
                        out.add(f["path"])
                    if x.get("k") == "agg" and x.get("ak") == "closure":
                        out.add(x["def"])
                    if x.get("k") == "const" and isinstance(x.get("c"), dict) and "t" in x["c"]:
                        ty = self.prog.types[x["c"]["t"]]
                        if ty["k"] == "closure":
                            out.add(ty["def"])
                    st.extend(x.values())
                elif isinstance(x, list):
                    st.extend(x)
            self._callees = set(c for c in out if c in self.prog.bodies)
        return self._callees

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


class CFG(object):
    def __init__(self, body):
        self.body = body
        n = len(body.blocks)
        self.succ = {}
        order = []
        seen = set()
        st = [(0, iter(self._s(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self._s(x))))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for x in self._s(b):
                self.pred[x].append(b)
        self._dom()
        self._loops()
        self._live()

    def _s(self, b):
        if b not in self.succ:
            self.succ[b] = self.body.succs(b)
        return self.succ[b]

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.idx[x] > self.idx[y]:
                                    x = idom[x]
                                while self.idx[y] > self.idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self._s(b):
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        # irreducible check
        self.irreducible = False
        for b in self.rpo:
            for s in self._s(b):
                if self.idx[s] <= self.idx[b] and not self.dominates(s, b):
                    self.irreducible = True

    def _live(self):
        body = self.body
        use, deff = {}, {}
        addr = set()

        def pl_uses(p, u, d, isdef):
            for e in p["p"]:
                if e["k"] == "index":
                    if e["l"] not in d:
                        u.add(e["l"])
            if isdef and not p["p"]:
                d.add(p["l"])
            else:
                if p["l"] not in d:
                    u.add(p["l"])

        def op_uses(o, u, d):
            if o["k"] in ("copy", "move"):
                pl_uses(o["p"], u, d, False)

        for b in self.rpo:
            u, d = set(), set()
            blk = body.blocks[b]
            for s in blk["s"]:
                if s["k"] == "assign":
                    r = s["r"]
                    for key in ("a", "b"):
                        if key in r and isinstance(r[key], dict):
                            op_uses(r[key], u, d)
                    for o in r.get("ops", []):
                        op_uses(o, u, d)
                    if "p" in r:
                        pl_uses(r["p"], u, d, False)
                        if r["k"] in ("ref", "rawptr") and (r.get("mut") or r["k"] == "rawptr"):
                            if not any(e["k"] == "deref" for e in r["p"]["p"]):
                                addr.add(r["p"]["l"])
                    pl_uses(s["p"], u, d, True)
                elif s["k"] == "setdiscr":
                    pl_uses(s["p"], u, d, False)
            t = blk["t"]
            if t["k"] == "switch":
                op_uses(t["d"], u, d)
            elif t["k"] == "call":
                op_uses(t["f"], u, d)
                for o in t["a"]:
                    op_uses(o, u, d)
                pl_uses(t["d"], u, d, True)
            elif t["k"] == "assert":
                op_uses(t["c"], u, d)
                for o in t["m"].values():
                    if isinstance(o, dict):
                        op_uses(o, u, d)
            elif t["k"] == "return":
                u.add(0)
            use[b], deff[b] = u, d
        self.addr = addr
        live_in = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self._s(b):
                    o |= live_in[s]
                n = use[b] | (o - deff[b])
                if n != live_in[b]:
                    live_in[b] = n
                    ch = True
        # a loop-carried mutable reference into a local keeps that local's value alive in
        # other cells; address-taken locals are live while any reference may exist, i.e. from
        # their first definition on; approximated as: live wherever assigned-before on all preds
        self.live_in = live_in

    def leads_err(self, b):
        """all paths from b return an error/None residual (no loops, no further calls with effect)"""
        if not hasattr(self, "_le"):
            self._le = {}
        return self._leads(b, frozenset())

    def _leads(self, b, seen):
        if b in self._le:
            return self._le[b]
        if b in seen:
            return False
        blk = self.body.blocks[b]
        t = blk["t"]
        r = None
        for s in blk["s"]:
            if s["k"] == "assign" and s["p"]["l"] == 0 and not s["p"]["p"] and s["r"]["k"] == "agg":
                if s["r"].get("def") == "std::result::Result" and s["r"].get("v") == "Err":
                    r = True
                else:
                    r = False
        if r is None:
            if t["k"] == "call":
                fn = t["f"].get("c", {}).get("fn")
                if fn and fn["decl"].endswith("FromResidual::from_residual") or fn and "FromResidual" in fn["path"]:
                    r = True if (t["d"]["l"] == 0) else False
                elif t["to"] is None:
                    r = True
                elif fn and not fn["local"] and not t["d"]["p"]:
                    # building the error value (format!, into, ...): keep looking
                    r = self._leads(t["to"], seen | {b})
                else:
                    r = False
            elif t["k"] == "return":
                r = False
            else:
                ss = self._s(b)
                r = bool(ss) and all(self._leads(s, seen | {b}) for s in ss)
        self._le[b] = r
        return r


UNSIGNED_TYPES = ("u8", "u16", "u32", "u64", "u128", "usize")


class Prog(object):
    def __init__(self, j):
        self.j = j
        self.types = j["types"]
        self.ext = j["ext"]
        self.bodies = {}
        self.promoted = {}
        for b in j["bodies"]:
            B = Body(self, b)
            self.bodies[b["id"]] = B
            self.promoted[b["id"]] = [Body(self, {"id": b["id"] + "::promoted", "body": p}) for p in b["promoted"]]
        self.adts = {a["id"]: a for a in j["adts"]}
        self.consts = {c["id"]: c for c in j["consts"]}
        self.impls = j["impls"]
        self.nvar = {}
        for a in j["adts"]:
            self.nvar[a["id"]] = len(a["variants"]) if a["kind"] == "Enum" else 1
        # what is an unsigned number: results of functions, fields
        for b in self.bodies.values():
            r = b.lty(0)["s"]
            m = re.match(r"(?:std::result::Result|std::option::Option)<(u\d+|usize)[,>]", r)
            if r in UNSIGNED_TYPES or m:
                terms.UNSIGNED.add((b.id, bool(m)))
        for a in j["adts"]:
            for vi, v in enumerate(a["variants"]):
                for i, f in enumerate(v["f"]):
                    if self.types[f["t"]]["s"] in UNSIGNED_TYPES:
                        terms.UNSIGNED.add((a["id"], vi, i))
        # From impls: (from type string, to type string) -> method
        self.from_impls = {}
        self.default_impls = {}
        for im in self.impls:
            if im.get("trait") == "std::convert::From":
                m = re.match(r"<(.*) as std::convert::From<(.*)>>$", im["trait_s"])
                for it in im["items"]:
                    if it.endswith("::from"):
                        self.from_impls[(m.group(2), m.group(1))] = it
            if im.get("trait") == "std::default::Default":
                for it in im["items"]:
                    self.default_impls[self.types[im["self"]]["s"]] = it

    def ty(self, i):
        return self.types[i]
