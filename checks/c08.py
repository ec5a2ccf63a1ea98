"""Every construction of a span in the crate is interpreted on all paths. It is
either the start of a text (line 1, column 1, offset 0), or a part of another
span B: its text is a part of B's text (sliced here, or by every caller of a
function that takes it as a parameter), and either the coordinates are all B's,
on a path on which the part starts where B does, or its offset is B's plus the
distance d to the part, its line is B's plus the number of line feeds in the
first d bytes of B's text, and its column is B's plus the number of characters
of these, if there are none, and otherwise one more than the number of
characters after the last. No code changes a field of a span. A span that starts
a text and gets into the document starts the document's own text (the rule of
C07): nothing restarts the count of lines at a part of it."""

from checks.common import *
from engine.interp import Interp, Policy, T, show

TECH = "abstract interpretation of MIR with symbolic coordinates, at all constructions of spans"
NOTE = ("All aggregates of the span type in the crate, and all callers of the function that takes a part. The number of line "
        "feeds is recognised as a counter of a search for line feeds, or as a call that counts them.")

COUNT_CHARS = {"num_chars", "count", "len_utf8"}
CHARS = {"chars", "char_indices"}
FINDS = {"Memchr", "memchr", "memrchr", "match_indices", "matches", "rfind", "find", "memchr_iter", "rsplit", "lines", "position", "rposition"}


def builders(p, span):
    out = []
    for fn in p.fns.values():
        if fn.derived:
            continue
        if any(s.get("r", {}).get("k") == "agg" and norm(s["r"].get("d", "")) == span for _, b in fn.live_blocks() for s in b["st"]):
            out.append(fn)
    return out


def span_functions(p, span):
    """Functions that start a span (all numbers are constants), and others."""
    starts, parts = set(), set()
    for fn in builders(p, span):
        for _, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and norm(r.get("d", "")) == span:
                    start = all("k" in o for n, o in zip(r["fn"], r["o"]) if n in ("line", "col", "offset"))
                    (starts if start else parts).add(fn.path)
    return starts - parts, parts


def constructions(p, fn, span):
    out = []

    missed = set()

    class C(Policy):
        def call(self, I, st, ctx):
            if ctx.callee is not None and ctx.callee.name in ("next", "next_back"):
                if ("pending", True) in st.ps:
                    missed.add(loc(ctx.span))
            return None

        def statement(self, I, st, fr, bi, s):
            r = s.get("r")
            if r and r["k"] == "bin" and r["op"].startswith("Add") and "k" in r["b"] and r["b"]["k"].get("v") == 1:
                if not any(x.op in ("f", "call") and x.a[0] != "bin" for x in I.phi_inputs(I.operand(fr, st, r["a"])) if not (x.op == "f" and x.a[0].op == "bin")):
                    st.ps -= {("pending", True)}

        def branch(self, I, st, fr, bi, term, value):
            for x in I.phi_inputs(term):
                if value in ("Some", "None") and x.op == "call" and x.a[0].split("::")[-1] in ("next", "next_back"):
                    st.ps -= {("pending", True)}
                    if value == "Some" and any(y.op == "const" and y.a[1] in (10, "\n") for y in I.deepterms(x)):
                        st.ps |= {("pending", True)}
                if x.op == "bin" and x.a[0] in ("Eq", "Ne", "Gt") and x.a[2].op == "const" and x.a[2].a[1] == 0:
                    zero = (str(value) in ("True", "1")) == (x.a[0] == "Eq")
                    if len(st.ps) >= 3 and not any(y[0] == x.a[1] for y in st.ps):
                        continue
                    st.ps = frozenset(y for y in st.ps if y[0] != x.a[1]) | {(x.a[1], zero)}
                elif x.op != "bin" and str(value) in ("0", "False") and len(st.ps) < 3:
                    st.ps = frozenset(y for y in st.ps if y[0] != x) | {(x, True)}

        def flagkey(self, I, st, fr):
            return [st.ps]

        def aggregate(self, I, st, fr, bi, sp, t):
            if t.a[0] == span:
                out.append((sp, dict(zip(t.a[2], t.a[3])), st.ps))

    I = Interp(p, C())
    I.run(fn, ps=frozenset())
    return out, I, missed


def check(p, rep):
    span = p.adt("Span")
    tys = {f["name"]: p.types[f["ty"]] for f in p.fields(span)}
    text = [n for n, t in tys.items() if t.peel().k == "str"]
    if len(text) != 1 or any(t.s != "usize" for n, t in tys.items() if n not in text) or not {"line", "col", "offset"} <= set(tys):
        raise FactsError("the fields of a span: found %s" % sorted(tys))
    text = text[0]
    n = 0
    for fn in p.fns.values():
        if fn.derived:
            continue
        for _, b in fn.live_blocks():
            for s in b["st"]:
                for e in s["p"].get("p", []):
                    if isinstance(e, dict) and norm(e.get("adt", "")) == span:
                        rep.bad("write/" + p.last(fn.path), s["s"], "%s changes the %s of a span" % (fn.path, e.get("n")))
                r = s.get("r")
                if r and r["k"] in ("ref", "rawptr") and r.get("mut") and any(isinstance(e, dict) and norm(e.get("adt", "")) == span for e in r["p"].get("p", [])):
                    rep.bad("write/" + p.last(fn.path), s["s"], "%s lets a field of a span be changed" % fn.path)
    for fn in builders(p, span):
        key = p.last(fn.path)
        cs, I, missed = constructions(p, fn, span)
        for m in sorted(missed):
            rep.bad(key, m, "%s: on a path around the loop here, nothing is counted" % fn.path)
        for sp, f, ps in cs:
            n += 1
            rep.ob(key, loc(sp))
            if all(f[k].op == "const" for k in ("line", "col", "offset")):
                if [f[k].a[1] for k in ("line", "col", "offset")] != [1, 1, 0]:
                    rep.bad(key, sp, "%s starts a span at line %s, column %s, offset %s" % (fn.path, *(show(f[k]) for k in ("line", "col", "offset"))))
                continue
            msg = part(p, I, fn, f, ps, text, rep)
            if msg:
                rep.bad(key, sp, "%s makes a span %s" % (fn.path, msg))
    rep.floor("constructions of spans", n, 1)
    restarts(p, rep)


def restarts(p, rep):
    from checks import c07
    from engine.report import Report
    sub = Report("C07", "")
    c07.check(p, sub)
    for key, where in sub.obligations:
        rep.ob("start/" + key, where)
    for key, where, message in sub.violations:
        if not key.startswith("cell/"):
            rep.bad("start/" + key, where, message)



def part(p, I, fn, f, ps, text, rep):
    # B
    bases = set()
    for k in ("line", "col", "offset"):
        bases |= {str(y.a[0]): y.a[0] for y in I.deepterms(f[k]) if y.op == "f" and y.a[2] == k and y.a[0].op in ("p", "f", "call")}.items()
    bs = dict(bases)
    if len(bs) != 1:
        return "with coordinates of %s spans" % (len(bs) or "no")
    B = next(iter(bs.values()))
    whole = T("f", B, None, text)

    def is_whole(x):
        return x.op == "f" and x.a[2] == text and x.a[0] == B

    data = f[text]
    starts = set()          # terms for the start of the part within B
    for y in I.phi_inputs(data):
        if is_whole(y):
            starts.add(0)
        elif y.op == "call" and y.a[0].split("::")[-1] in ("index", "get_unchecked") and is_whole(y.a[1][0]):
            starts.add(range_start(y.a[1][1]))
        elif y.op == "p" and B.op == "p":
            msg = callers(p, fn, y.a[0], B.a[0], text, rep)
            if msg:
                return msg
            starts.add("param")
        else:
            return "of the text %s, which is not a part of that of the span with these coordinates" % show(y)

    def is_distance(x):
        """The distance from B to the part."""
        if x in starts:
            return True
        if x.op == "f" and x.a[0].op == "bin":
            x = x.a[0]
        if x.op == "bin" and x.a[0].startswith("Sub"):
            return is_addr(x.a[1], data) and is_addr(x.a[2], None)
        if x.op == "call" and len(x.a[1]) == 2 and is_whole(x.a[1][0]) and x.a[1][1] == data:
            return distance_fn(p, x.a[0], 1, 2)
        if x.op == "call" and len(x.a[1]) == 2 and is_whole(x.a[1][1]) and x.a[1][0] == data:
            return distance_fn(p, x.a[0], 2, 1)
        if x.op == "call" and x.a[0].split("::")[-1] in ("sub", "wrapping_sub", "offset_from", "byte_offset_from"):
            return is_addr(x.a[1][0], data) and is_addr(x.a[1][1], None)
        return False

    def is_addr(x, of):
        while x.op in ("cast", "un") or x.op == "call":
            if x.op == "call":
                if x.a[0].split("::")[-1] not in ("as_ptr", "addr", "expose_provenance", "as_bytes"):
                    return False
                x = x.a[1][0]
            else:
                x = next((y for y in x.a if isinstance(y, T)), None)
                if x is None:
                    return False
        return x == of if of is not None else is_whole(x)

    if all(f[k].op == "f" and f[k].a[2] == k and f[k].a[0] == B for k in ("line", "col", "offset")):
        if starts == {0} or any(z and is_distance(x) for x, z in ps):
            return None
        return "with the coordinates of the whole, on a path on which the part may start later"

    def added(x, k):
        """What x adds to B's k."""
        if x.op == "f" and x.a[0].op == "bin":
            x = x.a[0]
        if x.op == "bin" and x.a[0].startswith("Add"):
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if a.op == "f" and a.a[2] == k and a.a[0] == B:
                    return b
        return None

    off = added(f["offset"], "offset")
    if off is None or not is_distance(off):
        return "with offset %s, which is not that of the whole plus the distance to the part" % show(f["offset"])

    def is_prefix(x):
        """The text of B before the part."""
        while x.op == "call" and x.a[0].split("::")[-1] in ("as_bytes", "as_ref", "deref"):
            x = x.a[1][0]
        if x.op == "call" and x.a[0].split("::")[-1] == "index" and is_whole(x.a[1][0]):
            r = x.a[1][1]
            return r.op == "agg" and (r.a[0].endswith("RangeTo") and is_distance(r.a[3][0]) or r.a[0].endswith("Range") and r.a[3][0].op == "const"
                                      and r.a[3][0].a[1] == 0 and is_distance(r.a[3][1]))
        return False

    def search(x, depth=0):
        """A search for line feeds in the text before the part."""
        found = [False, False]
        for y in I.deepterms(x):
            if y.op == "const" and (y.a[1] == 10 or y.a[1] == "\n"):
                found[0] = True
            elif y.op == "const" and isinstance(y.a[1], (str,)) and y.a[1]:
                return False
            if is_prefix(y):
                found[1] = True
        return all(found)

    lines = added(f["line"], "line")
    if lines is None:
        return "with line %s, which is not that of the whole plus a number" % show(f["line"])
    msg = counter(I, lines, search)
    if msg:
        return "with line %s: %s" % (show(f["line"]), msg)
    none = [z for x, z in ps if x == lines]
    cols = list(I.phi_inputs(f["col"]))
    for c in cols:
        a = added(c, "col")
        if a is not None:
            if none and none[0] is False or not none:
                return "with column %s, on a path on which there may be line feeds before it" % show(c)
            if not chars(I, a, is_prefix, search):
                return "with column %s, which is not that of the whole plus the characters before it" % show(c)
            continue
        d = c.a[0] if c.op == "f" and c.a[0].op == "bin" else c
        one = d.op == "bin" and d.a[0].startswith("Add") and next((y for x, y in ((d.a[1], d.a[2]), (d.a[2], d.a[1])) if x.op == "const" and x.a[1] == 1), None)
        if not one:
            return "with column %s" % show(c)
        if none and none[0] is True or not none:
            return "with column %s, on a path on which there may be no line feed before it" % show(c)
        if not chars(I, one, is_prefix, search, True):
            return "with column %s, which is not one more than the characters after the last line feed" % show(c)
    return None


def range_start(r):
    if r.op == "agg" and r.a[0].endswith("RangeTo"):
        return 0
    if r.op == "agg" and r.a[3]:
        x = r.a[3][0]
        return 0 if x.op == "const" and x.a[1] == 0 else x
    return None


def counter(I, x, search):
    """Whether x is the number of line feeds found."""
    if x.op == "call" and x.a[0].split("::")[-1] in ("count",):
        return None if search(x) else "it does not count the line feeds before the part"
    if x.op != "phi":
        return "it does not count line feeds"
    incs = zero = 0
    for y in I.phi_inputs(x):
        if y.op == "const" and y.a[1] == 0:
            zero += 1
        elif y.op == "const" and y.a[1] == 1:
            incs += 1
        elif y.op == "f" and y.a[0].op == "bin" or y.op == "bin":
            b = y.a[0] if y.op == "f" else y
            if not (b.a[0].startswith("Add") and b.a[2].op == "const" and b.a[2].a[1] == 1):
                return "it is changed by %s" % show(y)
            incs += 1
        else:
            return "it may be %s" % show(y)
    return None if incs and zero else "it does not count line feeds"


def chars(I, x, is_prefix, search, after=False):
    """Whether x is the number of characters (after the last line feed) of the
    text before the part."""
    if x.op == "call" and x.a[0].split("::")[-1] in ("count", "num_chars"):
        y = x.a[1][0]
        while y.op == "call" and y.a[0].split("::")[-1] in ("chars", "char_indices", "as_bytes"):
            if y.a[0].split("::")[-1] == "as_bytes" and x.a[0].split("::")[-1] == "count":
                return False
            y = y.a[1][0]
        if y is x.a[1][0] and x.a[0].split("::")[-1] == "count":
            return False
        if is_prefix(y):
            return not after
        if y.op == "call" and y.a[0].split("::")[-1] == "index" and is_prefix(y.a[1][0]):
            return start_of_line(I, y.a[1][1], search)
        return y.op == "f" or y.op == "call" and search(y)
    return False


def start_of_line(I, r, search):
    if r.op != "agg" or not r.a[0].endswith("RangeFrom"):
        return False
    ok = True
    for y in I.phi_inputs(r.a[3][0]):
        if y.op == "const":
            ok = ok and y.a[1] == 0
            continue
        b = y.a[0] if y.op == "f" and y.a[0].op == "bin" else y
        if not (b.op == "bin" and b.a[0].startswith("Add") and b.a[2].op == "const" and b.a[2].a[1] == 1):
            return False
        ok = ok and search(b.a[1])
    return ok


def callers(p, fn, arg, base, text, rep):
    """Every caller passes a part of the text of the span that it passes."""
    n = 0
    for g in p.fns.values():
        if fn.path not in p.edges().get(g.path, ()):
            continue
        msgs = []

        class C(Policy):
            def call(self, I, st, ctx):
                if ctx.callee is None or ctx.callee.path != fn.path:
                    return None
                B, x = ctx.args[base - 1], ctx.args[arg - 1]
                rep.ob("caller/" + p.last(g.path), loc(ctx.span))
                for y in I.phi_inputs(x):
                    while y.op == "call" and y.a[0].split("::")[-1] in ("index", "trim", "trim_start", "trim_end", "get_unchecked"):
                        y = y.a[1][0]
                    if not (y.op == "f" and y.a[2] == text and y.a[0] == B):
                        msgs.append("%s passes %s" % (g.path, show(y)))
                return I.opaque(st, ctx, ctx.fr)

        Interp(p, C()).run(g)
        n += 1
        if msgs:
            return "of a parameter, and " + msgs[0]
    return None if n else "of a parameter, and has no callers"


def distance_fn(p, path, a, b):
    """Whether this function returns the distance from its argument a to b."""
    fn = p.fns.get(path)
    if fn is None:
        return False
    I = Interp(p, Policy())
    ok = []
    for st, v in I.run(fn):
        for x in I.phi_inputs(v):
            if x.op == "f" and x.a[0].op == "bin":
                x = x.a[0]
            if x.op == "call" and x.a[0].split("::")[-1] in ("sub", "wrapping_sub", "offset_from", "byte_offset_from"):
                x = T("bin", "Sub", x.a[1][0], x.a[1][1])
            ok.append(x.op == "bin" and x.a[0].startswith("Sub") and root_param(x.a[1]) == b and root_param(x.a[2]) == a)
    return bool(ok) and all(ok)


def root_param(x):
    while x.op in ("cast", "call", "un"):
        if x.op == "call":
            if x.a[0].split("::")[-1] not in ("as_ptr", "addr", "expose_provenance", "as_bytes"):
                return None
            x = x.a[1][0]
        else:
            x = next((y for y in x.a if isinstance(y, T)), T("const", None, None))
    return x.a[0] if x.op == "p" else None
