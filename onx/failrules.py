"""P05 / P06: failure propagation, decided on the canonical values of every unit.

For each call site event (a call c evaluated under path condition pc) the rule asks: on
every path on which c is evaluated and fails, is the unit's own outcome a failure?  Inside
a loop the outcome of the iteration must be one of the loop's failing exits, and every loop
with failing exits is in turn a step whose failure must fail the enclosing level."""
import re

from terms import *
from models import Eng
from engine import ALIASES, Unsupported
from panics import const_guid


def ret_kind(P, path):
    b = P.bodies.get(path)
    if b is None:
        return None
    t = b.lty(0)
    d = t.get("def")
    if d == "std::result::Result":
        return "res"
    if d == "std::option::Option":
        return "opt"
    return "other"


# cannot fail (models.py); library calls modelled as several
INFALLIBLE = ("std::fs::File::metadata",)
PARTS = {"std::fs::read": ("std::fs::File::open", "std::io::Read::read_to_end")}


def ext_result_callees(P):
    """external functions whose call sites produce a Result"""
    out = {}
    for k, b in P.bodies.items():
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] != "call":
                continue
            f = t["f"]
            fn = f.get("c", {}).get("fn") if f.get("k") == "const" else None
            if fn and not fn["local"]:
                ty = P.types[t["d"]["t"]]
                if ty.get("def") == "std::result::Result":
                    p = ALIASES.get(fn["path"], fn["path"])
                    if p not in INFALLIBLE:
                        for q in PARTS.get(p, (p,)):
                            out.setdefault(q, set()).add(k)
    return out


def okcond(ret, kind):
    def f(x):
        if x.op == "adt":
            if x.a[0] == "std::result::Result":
                return BOOL(x.a[1] == 0)
            if x.a[0] == "std::option::Option":
                return BOOL(x.a[1] == 1)
            return TRUE
        if kind == "res":
            return NOT(raw("isv", x, 1))
        if kind == "opt":
            return raw("isv", x, 1)
        return TRUE
    return lift(f, ret)


COMBINATOR = ("std::result::", "<std::result::", "std::option::", "<std::option::", "std::iter::", "std::fmt::", "core::fmt::")


def fallible(P):
    """path -> "res" for functions whose call can fail"""
    ext = {p for p in ext_result_callees(P) if not p.startswith(COMBINATOR)}

    def want(p):
        if p in P.bodies:
            return "res" if ret_kind(P, p) == "res" else None
        return "res" if p in ext else None
    return want


# lookups by identifier or position whose absence means that the file refers to something
# that is not there
LOOKUP = re.compile(r"::(find_|resolve_|get_object|object_space$|content_root|metadata_root|data_root|get_blob|lookup)[a-z_]*$|::file_data$")


def lookups(P):
    def want(p):
        if p in P.bodies and ret_kind(P, p) == "opt" and LOOKUP.search(p):
            return "opt"
        return None
    return want


class UnitFacts(object):
    def __init__(self, P, base, u, inline=frozenset()):
        self.u = u
        bodies = P.bodies
        self.e = Eng(P, opaque_pred=lambda p: p in base and p in bodies and p not in inline)
        old = limit(400000)
        try:
            self.ret, self.st = self.e.analyse(u)
        finally:
            work[1] = old
        self.kind = ret_kind(P, u)
        self.ok = okcond(self.ret, self.kind)

    def steps(self, want):
        """(label, fail-atom c, value meaning failure, pc, loopstack)"""
        for ev, tick in zip(self.e.events, self.e.ticks):
            path, c, pc, stack, loops = ev
            w = want(path)
            if w is None:
                continue
            yield path, raw("isv", c, 1), (w == "res"), pc, loops, tick
        for ctx in self.e.loops:
            if ctx.haserr:
                yield "loop", ctx.done, False, ctx.pc, ctx.outer, ctx.tick

    def check(self, want, allow=lambda *a: False):
        n = 0
        bad = []
        for label, atom, failval, pc, loops, tick in self.steps(want):
            n += 1
            if pc is FALSE:
                continue
            if loops:
                ctx = loops[-1]
                more = getattr(ctx, "more", None)
                p = assume(pc, more, True) if more is not None else pc
                # the body of the loop only sees the elements that the iterator lets through
                for since, g in ctx.present:
                    if tick >= since:
                        p = AND(p, g)
                okc = NOT(getattr(ctx, "openerr", FALSE))
            else:
                p, okc = pc, self.ok
            p = assume(p, atom, failval)
            left = AND(assume(okc, atom, failval), p)
            left = assume(left, atom, failval)
            if left is not FALSE and not const_guid(atom):
                bad.append((label, atom, left))
        return n, bad
