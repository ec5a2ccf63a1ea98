"""The crate's string types are found by what they dereference to. Every
operation of theirs is interpreted path by path: comparisons compare, and the
hash feeds, exactly the text of their operands, and nothing else; every view,
copy and conversion yields, for each form of storage, the text of its operand:
the payload of the form, or for the inline form the first `len` bytes of its
buffer, where every construction of an inline string fills the buffer from the
text whose length it stores. No comparison of a string that has several forms
is derived from the forms."""

from checks.common import *
from engine.interp import Interp, Policy, T, show

TECH = "path-sensitive abstract interpretation of MIR (provenance of compared, hashed and returned text)"
NOTE = "All operations of the two string types, on all paths and for all forms of storage."

KEEP = {"into_boxed_str", "into_string", "as_str", "as_bytes", "to_string", "to_owned", "into", "from", "deref", "as_ref", "borrow",
        "clone", "from_utf8_unchecked", "as_mut", "as_bytes_mut", "into_owned", "to_vec", "into_boxed_bytes", "try_from", "try_into"}
COMPARE = {"eq": "eq", "ne": "eq", "cmp": "cmp", "partial_cmp": "partial_cmp", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge"}


def check(p, rep):
    types = set()
    for im in p.impls:
        if im["_trait"] and im["_trait"].split("<")[0] == "core::ops::deref::Deref" and im["_self"].adt():
            a = im["_self"].adt()
            for it in im["items"]:
                fn = p.fns.get(norm(it["path"]))
                if fn is not None and fn.locals[0].s == "&str":
                    types.add(a)
    # spans are positions in a text, not strings
    types = {a for a in types if not any(p.types[f["ty"]].s == "usize" for v in p.adts[a]["variants"] for f in v["fields"])}
    rep.floor("string types", len(types), 1)
    many = {a for a in types if p.adts[a]["kind"] == "enum"}
    inline = types - many
    for a in inline:
        for f in p.fields(a):
            m = re.match(r"\[u8; (\d+)\]", p.types[f["ty"]].s)
            if m and int(m.group(1)) > 255:
                rep.bad("inline/size", p.fns[next(iter(p.fns))].span, "the inline buffer of %s has room for more bytes than its length can count" % a)
    covered = set()
    n = 0
    for fn in sorted(p.fns.values(), key=lambda f: f.path):
        mine = fn.self_adt in types or (fn.trait and fn.argc and any(fn.locals[1].peel().adt() == a for a in types) and not fn.derived
                                        and fn.kind == "fn" and p.last(fn.trait.split("<")[0]) in ("From", "Into", "PartialEq", "PartialOrd"))
        if not mine or fn.kind != "fn":
            continue
        short = fn.path
        tr = p.last(fn.trait.split("<")[0]) if fn.trait else ""
        if fn.derived:
            if fn.self_adt in many and tr in ("PartialEq", "Hash", "Ord", "PartialOrd"):
                rep.ob("derived/" + short)
                rep.bad("derived/" + short, fn.span, "%s is derived: it distinguishes strings by how they are stored" % short)
            continue
        kind = None
        if tr in ("PartialEq", "Ord", "PartialOrd", "Eq"):
            kind = "compare"
        elif tr == "Hash":
            kind = "hash"
        elif tr == "Display":
            kind = "show"
        elif tr == "Debug":
            continue
        elif fn.argc and texty(fn.locals[0], types) and (texty(fn.locals[1], types) or "char" in fn.locals[1].s):
            kind = "text"
        if kind is None:
            continue
        covered.add(fn.path)
        n += 1
        rep.ob("%s/%s" % (kind, short), loc(fn.span))
        one(p, rep, fn, kind, types, many, inline)
    rep.floor("operations of the string types", n, 1)
    # constructions and changes elsewhere
    for fn in p.fns.values():
        if fn.derived:
            continue
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and norm(r.get("d", "")) in inline and re.sub(r"(::\{closure#\d+\})+$", "", fn.path) not in covered:
                    rep.bad("inline/construction", s["s"], "%s assembles an inline string from parts" % fn.path)
                for e in s["p"].get("p", []):
                    if isinstance(e, dict) and "f" in e and norm(e.get("adt", "")) in inline:
                        rep.bad("inline/change", s["s"], "%s changes a part of an inline string" % fn.path)


def texty(ty, types):
    return any(x.k == "str" or (x.k == "adt" and (x.d in types or x.d == "alloc::string::String")) for x in ty.walk())


def one(p, rep, fn, kind, types, many, inline):
    short = fn.path

    class C(Policy):
        into = {f.path for f in p.fns.values() if f.self_adt in types and f.name in ("ne", "eq") and f.path != fn.path and not f.trait}
        hashed = []

        def call(self, I, st, ctx):
            name = ctx.path.split("::")[-1]
            if name == "hash" or name.startswith("write"):
                st.ps = st.ps | {("hash", name, ctx.args[0] if name == "hash" else ctx.args[-1], len(st.ps))}
            if name in ("copy_from_slice", "clone_from_slice"):
                d = ctx.args[0]
                for x in I.phi_inputs(d):
                    if x.op == "call" and x.a[0].endswith("index_mut") and x.a[1][1].op == "agg" and x.a[1][1].a[1].startswith("RangeTo"):
                        st.ps = st.ps | {("fill", base(I, ctx.args[1]), x.a[1][1].a[3][0])}
            if name == "encode_utf8":
                st.ps = st.ps | {("fill", base(I, ctx.args[0]), None)}
            return None

        def flagkey(self, I, st, fr):
            return [st.ps]

    def base(I, x, d=0):
        """The parameter whose text `x` is, or None."""
        if d > 12:
            return None
        out = set()
        for y in I.phi_inputs(x):
            out.add(base1(I, y, d))
        return out.pop() if len(out) == 1 else None

    def base1(I, y, d):
        if y.op == "p":
            return y
        if y.op == "cast":
            return base(I, y.a[0], d + 1)
        if y.op == "ref":
            root, path = y.a[0], y.a[1]
            if hasattr(root, "op"):
                t = root
                for e in path:
                    if isinstance(e, tuple) and e[0] in ("Boxed", "Borrowed", "Inlined", "Owned") and e[1] == "0":
                        continue
                    return None
                return base(I, t, d + 1)
            return None
        if y.op == "f":
            v = y.a[1] if len(y.a) > 2 else None
            if str(y.a[-1]) == "0" and v is not None:
                inner = y.a[0]
                if inner.op == "call" and inner.a[0].split("::")[-1].startswith("from_utf8"):
                    return base(I, inner.a[1][0], d + 1)
                return base(I, inner, d + 1)
            return None
        if y.op == "call":
            n = y.a[0].split("::")[-1]
            if n == "index" and len(y.a[1]) == 2:
                b, r = y.a[1]
                if b.op == "f" and r.op == "agg" and r.a[1].startswith("RangeTo") and b.a[0].op == "p" \
                        and p_type(b.a[0]) in inline:
                    e = r.a[3][0]
                    while e.op == "cast":
                        e = e.a[0]
                    if e.op == "f" and e.a[0] is b.a[0] and e is not b:
                        return b.a[0]
                return None
            if n.startswith("from_utf8"):
                return base(I, y.a[1][0], d + 1)
            if (n in KEEP or n.startswith("from_utf8")) and len(y.a[1]) >= 1:
                return base(I, y.a[1][0], d + 1)
            return None
        if y.op == "agg" and y.a[3] and len(y.a[3]) == 1:
            return base(I, y.a[3][0], d + 1)
        return None

    def p_type(t):
        return fn.locals[t.a[0]].peel().adt()

    def textof(I, st, v):
        """None if the value has the text of the first parameter; otherwise
        what is wrong."""
        for y in I.phi_inputs(v):
            if y.op == "agg" and y.a[1] == "Err":
                continue
            if y.op == "agg" and y.a[0] in inline:
                b = check_inline(I, st, y)
                if b is not None:
                    return b
                continue
            if y.op == "agg" and len(y.a[3]) == 1:
                b = textof(I, st, y.a[3][0])
                if b is not None:
                    return b
                continue
            if y.op == "call" and y.a[0].split("::")[-1] == "default" and failed(I, st):
                continue
            if y.op == "const" and y.a[1] == "" and failed(I, st):
                continue
            b = base1(I, y, 0)
            if b is None or b.a[0] != 1:
                return "%s, which is not the text of its operand" % show(y)
        return None

    def failed(I, st):
        """from_utf8 may have failed on this path."""
        return any(t.op == "call" and t.a[0].split("::")[-1] == "from_utf8" and isinstance(v, frozenset) and "Err" in v
                   for t, v in st.facts.items())

    def check_inline(I, st, y):
        ln = [x for n, x in zip(y.a[2], y.a[3]) if n == "len"]
        fills = [f for f in st.ps if f[0] == "fill"]
        if len(ln) != 1 or len(fills) != 1:
            return "an inline string whose buffer is not filled exactly once"
        _, b, upto = fills[0]
        e = ln[0]
        while e.op == "cast":
            e = e.a[0]

        def is_len(e):
            while e.op == "cast":
                e = e.a[0]
            return (e.op == "un" and e.a[0] == "len" and base(I, e.a[1]) is b) or \
                (e.op == "call" and e.a[0].split("::")[-1] in ("len_utf8", "len") and base(I, e.a[1][0]) is b)
        if b is None or b.a[0] != 1:
            return "an inline string filled from something other than its operand"
        if not is_len(e):
            return "an inline string with the length %s" % show(e)
        if upto is not None and not is_len(upto):
            return "an inline string filled up to %s" % show(upto)
        return None

    I = Interp(p, C())
    for st, v in I.run(fn, ps=frozenset()):
        key = "%s/%s" % (kind, short)
        if kind == "compare":
            for y in I.phi_inputs(v):
                if y.op == "const" and y.a[1] is (fn.name == "ne") and any(
                        t.op == "bin" and t.a[0] in ("Eq", "Ne") and f is (t.a[0] == "Ne") and {
                            b.a[0] if b is not None else None for b in (
                                base(I, x.a[1]) if x.op == "un" and x.a[0] == "len" else None for x in t.a[1:3])} == {1, 2}
                        for t, f in st.facts.items()):
                    continue            # of different lengths
                if y.op == "const" and y.a[1] is (fn.name == "eq") and any(
                        t.op == "call" and t.a[0].startswith("core::ptr") and t.a[0].endswith("::eq") and f is True and
                        {b.a[0] if b is not None else None for b in (base(I, x) for x in t.a[1])} == {1, 2} for t, f in st.facts.items()):
                    continue            # the very same text
                neg = False
                while y.op == "un" and y.a[0] == "Not":
                    y, neg = y.a[1], not neg
                n = y.a[0].split("::")[-1] if y.op == "call" else None
                want = COMPARE.get(fn.name)
                if y.op == "agg" and len(y.a[3]) == 1 and y.a[3][0].op == "call":
                    y = y.a[3][0]
                    n = y.a[0].split("::")[-1]
                if n is None or y.a[0].startswith("core::ptr") or not (n == want or {n, want} <= {"cmp", "partial_cmp"}) or neg != (fn.name == "ne"):
                    rep.bad(key, fn.span, "%s answers %s on some path, instead of comparing the texts" % (short, show(y)))
                    continue
                bs = [base(I, x) for x in y.a[1]]
                if {b.a[0] if b is not None else None for b in bs} != {1, 2}:
                    rep.bad(key, fn.span, "%s compares %s, not the texts of its operands" % (short, show(y)))
        elif kind == "hash":
            hs = [f for f in st.ps if f[0] == "hash"]
            if len(hs) != 1 or hs[0][1] != "hash" or base(I, hs[0][2]) is None or base(I, hs[0][2]).a[0] != 1:
                rep.bad(key, fn.span, "%s feeds the hash with %s, not with the text exactly once" % (
                    short, ", ".join(sorted(show(f[2]) for f in hs)) or "nothing"))
        elif kind == "show":
            ok = False
            for y in I.phi_inputs(v):
                ok = y.op == "call" and any(
                    (x.op == "fmt" and len(x.a[0]) == 1 and base(I, x.a[0][0]) is not None) or
                    (x.op == "p" and x.a[0] == 1 and y.a[0].split("::")[-1] in ("fmt", "write_str", "pad")) for x in y.a[1])
                if not ok:
                    rep.bad(key, fn.span, "%s writes %s, not its text" % (short, show(y)))
        else:
            b = textof(I, st, v)
            if b is not None:
                rep.bad(key, fn.span, "%s yields %s" % (short, b))
