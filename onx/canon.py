"""Names and declaration orders that carry no meaning.

Before the current program is compared with the specification, private types that were merely
renamed, recursive private functions that were merely renamed (a function that calls itself
cannot be expanded away), and fields and variants that were merely put in another order are
brought back to the names and orders of the reference."""
import json
import re


def local(b):
    return b["body"] if "body" in b else b


def fn_refs(x, out):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "path" in y and "decl" in y:
                out.add(y["path"])
            if y.get("k") == "agg" and y.get("ak") == "closure":
                out.add(y["def"])
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)
    return out


def recursive(j, ids):
    """those of `ids` that can reach themselves in the call graph"""
    bodies = {b["id"]: b for b in j["bodies"]}
    memo = {}

    def callees(i):
        if i not in memo:
            memo[i] = fn_refs(bodies[i], set()) & set(bodies)
        return memo[i]
    out = set()
    for i in ids:
        seen, st = set(), [i]
        while st:
            for c in callees(st.pop()):
                if c == i:
                    out.add(i)
                    st = []
                    break
                if c not in seen:
                    seen.add(c)
                    st.append(c)
    return out


def parent(i):
    return i.rsplit("::", 1)[0]


def plain(i):
    return i[len("crate::"):] if i.startswith("crate::") else i


def pairs(gone, new, key):
    """unambiguous matches between two groups"""
    out = {}
    for n in new:
        c = [g for g in gone if key(g, 0) == key(n, 1)]
        if len(c) == 1 and sum(key(m, 1) == key(c[0], 0) for m in new) == 1:
            out[n] = c[0]
    return out


def renames(cur, ref):
    ca, ra = ({a["id"]: a for a in j["adts"]} for j in (cur, ref))
    gone = [i for i in ra if i not in ca and i.startswith("crate::")]
    new = [i for i in ca if i not in ra and i.startswith("crate::")]
    rn = {}
    if gone and new:
        word = re.compile("|".join(r"\b%s\b" % re.escape(plain(i)) for i in gone + new))

        def shape(i, side):
            j, a = (ref, ra[i]) if side == 0 else (cur, ca[i])
            st = a["kind"] == "Struct"
            return (parent(i), a["kind"], bool(a.get("exported")), tuple(
                (None if st else v["n"], tuple((f["n"], word.sub("?", j["types"][f["t"]]["s"])) for f in v["f"]))
                for v in a["variants"]))
        rn.update(pairs(gone, new, shape))
    return rn


def fn_renames(cur, ref):
    cb, rb = ({b["id"]: b for b in j["bodies"]} for j in (cur, ref))

    def cand(a, b):
        return [i for i, x in a.items() if i not in b and "{closure" not in i and not x.get("derive") and not x.get("exported") and
                not x.get("impl_trait")]
    gone, new = cand(rb, cb), cand(cb, rb)
    if not gone or not new:
        return {}
    gone, new = sorted(recursive(ref, gone)), sorted(recursive(cur, new))

    def sig(i, side):
        j, b = (ref, rb[i]) if side == 0 else (cur, cb[i])
        o = local(b)
        return (parent(i), tuple(j["types"][o["locals"][k]["t"]]["s"] for k in range(o["argc"] + 1)))
    return pairs(gone, new, sig)


def rename(j, rn):
    if not rn:
        return j
    m = {plain(n): plain(g) for n, g in rn.items()}
    rx = re.compile("|".join(r"(?<![\w:])(?:crate::)?%s\b" % re.escape(n) for n in sorted(m, key=len, reverse=True)))

    def sub(k):
        t = k.group(0)
        return "crate::" + m[t[7:]] if t.startswith("crate::") else m[t]
    j = json.loads(rx.sub(sub, json.dumps(j)))
    back = set("crate::" + g for g in m.values())
    for a in j["adts"]:
        if a["id"] in back and a["kind"] != "Enum":
            old = a["variants"][0]["n"]
            a["variants"][0]["n"] = a["id"].rsplit("::", 1)[1]
            a["_was"] = old
    was = {a["id"]: a["_was"] for a in j["adts"] if a.get("_was")}
    if was:
        st = [j["bodies"], j["consts"]]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                d = y.get("def") if y.get("ak") == "adt" else y.get("adt")
                if isinstance(d, str) and d in was and y.get("v") == was[d]:
                    y["v"] = d.rsplit("::", 1)[1]
                st.extend(y.values())
            elif isinstance(y, list):
                st.extend(y)
    return j


def orders(cur, ref):
    """adt -> (new position of each variant, per variant the new position of each field)"""
    ra = {a["id"]: a for a in ref["adts"]}
    ordered = set()
    for im in cur["impls"]:
        if im.get("trait") in ("std::cmp::PartialOrd", "std::cmp::Ord") and im.get("derive"):
            ordered.add(cur["types"][im["self"]].get("def"))
    out = {}
    for a in cur["adts"]:
        r = ra.get(a["id"])
        if r is None or a["id"] in ordered or a["kind"] != r["kind"] or a["kind"] not in ("Enum", "Struct"):
            continue
        cn, rn = [v["n"] for v in a["variants"]], [v["n"] for v in r["variants"]]
        if sorted(cn) != sorted(rn):
            continue
        vm = [rn.index(n) for n in cn]
        fm = []
        for v in a["variants"]:
            w = r["variants"][rn.index(v["n"])]
            x, y = [f["n"] for f in v["f"]], [f["n"] for f in w["f"]]
            fm.append([y.index(n) for n in x] if sorted(x) == sorted(y) else list(range(len(x))))
        if vm != sorted(vm) or any(f != sorted(f) for f in fm):
            out[a["id"]] = (vm, fm)
    return out


def permuted(xs, m):
    out = list(xs)
    for i, x in enumerate(xs):
        out[m[i]] = x
    return out


def reorder(j, om):
    if not om:
        return
    types = j["types"]

    def place(p, locs):
        ty = types[locs[p["l"]]["t"]]
        var = None
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                ty = types[ty["to"]] if ty and "to" in ty else (
                    types[ty["args"][0]] if ty and ty.get("def") == "std::boxed::Box" else None)
            elif k == "downcast":
                var = e["v"]
                if ty is not None and ty.get("def") in om:
                    e["v"] = om[ty["def"]][0][var]
            elif k == "field":
                if ty is not None and ty.get("k") == "adt" and ty.get("def") in om:
                    e["i"] = om[ty["def"]][1][var or 0][e["i"]]
                ty = types[e["t"]]
                var = None
            elif k in ("index", "constidx"):
                ty = types[ty["of"]] if ty and "of" in ty else None

    def walk(x, locs):
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if locs is not None and "l" in y and isinstance(y.get("p"), list):
                    place(y, locs)
                if y.get("k") == "agg" and y.get("ak") == "adt" and y.get("def") in om and len(y["ops"]) == len(om[y["def"]][1][y["vi"]]):
                    vm, fm = om[y["def"]]
                    y["ops"] = permuted(y["ops"], fm[y["vi"]])
                    if len(y.get("fields", ())) == len(y["ops"]):
                        y["fields"] = permuted(y["fields"], fm[y["vi"]])
                    y["vi"] = vm[y["vi"]]
                elif isinstance(y.get("adt"), str) and y["adt"] in om and "fields" in y:
                    vm, fm = om[y["adt"]]
                    y["fields"] = permuted(y["fields"], fm[y["vi"]])
                    y["vi"] = vm[y["vi"]]
                st.extend(y.values())
            elif isinstance(y, list):
                st.extend(y)
    for b in j["bodies"]:
        o = local(b)
        walk(o["blocks"], o["locals"])
        for p in b.get("promoted", ()):
            o = local(p)
            walk(o["blocks"], o["locals"])
    walk(j["consts"], None)
    for a in j["adts"]:
        if a["id"] in om:
            vm, fm = om[a["id"]]
            for i, v in enumerate(a["variants"]):
                v["f"] = permuted(v["f"], fm[i])
            a["variants"] = permuted(a["variants"], vm)


def align(cur, ref):
    """the current program under the names and orders of the reference"""
    cur = rename(cur, renames(cur, ref))
    cur = rename(cur, fn_renames(cur, ref))
    reorder(cur, orders(cur, ref))
    return cur
