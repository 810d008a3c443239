"""P01: every operation that can panic is shown not to, or is reported."""
import re, uuid
from terms import *
from models import Eng
from engine import Unsupported
from arith import Arith, Lin, paths

# library functions that panic for some arguments; a call is accepted only where a rule below
# (or the abstract value of its arguments) excludes the panic
PANICKY = [
    r"::unwrap(_err|_unchecked)?$", r"::expect(_err)?$", r"panicking::", r"rt::begin_panic", r"::panic(_fmt|_display|_str)?$",
    r"process::(abort|exit)$", r"::unreachable(_unchecked)?$", r"assert_failed", r"copy_from_slice$", r"clone_from_slice$",
    r"copy_within$", r"(Vec|VecDeque|String)::<?.*>?::(remove|swap_remove|insert|drain|split_off|insert_str|replace_range|splice|swap)$",
    r"String::(remove|insert|insert_str|drain|split_off|replace_range|truncate)$",
    r"\[T\]>::(swap|split_at|split_at_mut|rotate_left|rotate_right|select_nth_unstable.*|chunks_mut|chunks|chunks_exact|chunks_exact_mut|"
    r"rchunks.*|windows|swap_with_slice|fill_with|as_chunks|repeat|concat|join|copy_within|array_windows)$",
    r"str>::(split_at|split_at_mut|repeat)$", r"::step_by$", r"RefCell::<T>::(borrow|borrow_mut|replace|swap|take)$",
    r"::(pow|abs|neg|div_euclid|rem_euclid|ilog2|ilog10|ilog|isqrt|next_power_of_two|next_multiple_of|div_ceil|strict_.*)$",
    r"Duration::(new|from_secs_f.*|mul_f.*|div_f.*)$", r"Duration as std::ops", r"Instant as std::ops", r"SystemTime as std::ops",
    r"char::(from_digit|to_digit)", r"::to_digit$", r"::from_digit$", r"thread::(spawn|sleep)", r"::product$",
    r"<&?(mut )?.* as bytes::Buf(Mut)?>::(get_|copy_to|advance|put|split|slice)", r"bytes::Buf(Mut)?::(get_|copy_to_slice|copy_to_bytes|put)",
    r"bytes::Bytes(Mut)?::(slice|split|truncate|advance|unsplit)", r"::zip_eq$", r"::exactly_one$", r"tuple_windows", r"::get_many",
    r"HashMap<.*> as std::ops::Index", r"String as std::ops::Index", r"str as std::ops::Index", r"as std::ops::Index(Mut)?<",
    r"iter::.*::(cycle)$", r"Iterator::(step_by|max_by_key_panics)$", r"::clamp$", r"from_utf8_unchecked", r"Layout::",
    r"alloc::handle_alloc_error", r"::try_reserve_exact_never$", r"OnceCell|OnceLock|LazyLock|Mutex|RwLock|mpsc|Barrier|Condvar",
    r"std::env::(args|vars|set_var|remove_var)$", r"print(ln)?$|_print$|_eprint$", r"SystemTime::now|Instant::now",
    r"uuid::.*from_slice.*unwrap", r"Box::<.*>::from_raw", r"sort_floats",
]
PANICKY_RX = re.compile("|".join("(?:%s)" % p for p in PANICKY))

# crates whose functions used here have been read and do not panic for the argument types in use
NONPANIC_EXT = re.compile(
    r"^(<?&?(mut )?\[?(std|core|alloc)\b|<.* as (std|core|alloc)::|itertools::Itertools::|encoding_rs::mem::decode_latin1$|"
    r"sanitise_file_name::sanitise$|uuid::|widestring::|<widestring::|<uuid::|num_traits::|<num_traits|thiserror|<&\[u8\] as bytes::Buf>::"
    r"(remaining|chunk|has_remaining|try_get_[a-z0-9_]+|try_copy_to_slice)$|bytes::Buf::(remaining|chunk|has_remaining|try_))")


def valid_guid(s):
    return re.match(r"^\{?[0-9a-fA-F]{8}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{12}\}?$", s) is not None


def const_guid(atom):
    """atom: outcome of Guid::from_str on a well-formed constant is Err -> impossible"""
    if atom.op == "isv" and atom.a[1] == 1 and atom.a[0].op == "call" and atom.a[0].a[0].endswith("guid::Guid::from_str"):
        x = atom.a[0].a[1]
        return x.op == "str" and valid_guid(x.a[0])
    return False


def goal(o, e):
    """condition under which the operation does not panic (None: no such condition known)"""
    k = o["kind"]
    if o["ok"] is not None:
        return o["ok"]
    if k == "index":
        b, i = o["d"]["base"], o["d"]["index"]
        ty = o["ty"] or ""
        n = e.length(b)
        if "HashMap<" in ty.split("Vec<")[0] or "BTreeMap<" in ty.split("Vec<")[0]:
            return isv(e.mapget(b, i), 1, 2)
        if ty.lstrip("&").startswith(("str", "std::string::String", "mut str")):
            return None

        def f(x):
            if x.op == "adt" and "Range" in x.a[0]:
                nm = x.a[0].split("::")[-1]
                if nm == "Range":
                    return AND(NOT(lt(x.a[3][1], x.a[3][0])), NOT(lt(n, x.a[3][1])))
                if nm == "RangeFrom":
                    return NOT(lt(n, x.a[3][0]))
                if nm == "RangeTo":
                    return NOT(lt(n, x.a[3][0]))
                if nm == "RangeFull":
                    return TRUE
                return FALSE
            return lt(x, n)
        return lift(f, i)
    return None


class Prover(object):
    def __init__(self, ctx):
        self.P = ctx.P
        self.ctx = ctx
        self.memo = {}

    # reader suffix: a function given &mut Reader leaves a suffix of it
    def suffix(self, path, i):
        key = ("suf", path, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True          # coinductive
        b = self.P.bodies.get(path)
        r = False
        if b is not None and i < b.argc:
            t = b.lty(i + 1)
            if t["k"] == "ref" and t["mut"] and self.P.types[t["to"]].get("def", "").endswith("reader::Reader"):
                r = self.ctx.reader_suffix(path, i)
        self.memo[key] = r
        return r

    def countish(self, c):
        """calls whose integer result counts in-memory items"""
        k = None
        x = c
        while x.op == "fld":
            x = x.a[0]
        if x.op != "call" or x.a[0] not in self.P.bodies:
            return False
        key = ("cnt", x.a[0], tuple((y.a[1], y.a[2]) for y in chain(c)))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        r = False
        try:
            ret = self.ctx.unit_ret(x.a[0])
            if ret is not None:
                v = ret
                for y in reversed(chain(c)):
                    v = fld(v, *y.a[1:])
                # under success
                A = Arith([], self.suffix, self.countish)
                r = all(A.membound(l) for l in leaves(v) if not (l.op == "fld" and l.a[0] is ERR) and l is not ERR)
        except (Unsupported, OverflowError):
            r = False
        self.memo[key] = r
        return r

    def discharge(self, o, e):
        k = o["kind"]
        if k == "ptr":
            return True               # null/alignment checks of raw pointers: no unsafe code (P25)
        if o["pc"] is FALSE:
            return True
        if k == "call":
            return self.call_ok(o)
        ok = goal(o, e)
        if ok is None:
            return False
        left = AND(o["pc"], NOT(ok))
        ty = o["ty"] if o["ty"] in WID else "usize" if k in ("index", "len", "bounds") else None
        return self.excluded(left, o["loops"], ty)

    def excluded(self, left, loops, ty):
        if left is FALSE:
            return True
        A = Arith(loops, self.suffix, self.countish)
        if ty not in WID:
            ty = None
        try:
            ps = paths(left)
        except OverflowError:
            return False
        for lits in ps:
            if any(const_guid(a) and v for a, v in lits):
                continue
            if not A.refuted(lits, (), ty):
                return False
        return True

    def call_ok(self, o):
        p = o["callee"]
        if o["d"].get("never"):
            return False
        if p.endswith("chunks_exact") or p.endswith("::chunks") or p.endswith("::windows"):
            n = o["d"]["args"][1]
            return n.op == "int" and n.a[0] > 0
        if PANICKY_RX.search(p):
            return False
        return NONPANIC_EXT.search(p) is not None


def chain(c):
    out = []
    while c.op == "fld":
        out.append(c)
        c = c.a[0]
    return out
