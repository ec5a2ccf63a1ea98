"""Every insertion into the parser's table of attribute values, in whatever
function and on whatever path, uses as key the result of one normalizing
function applied to the name it was given, and consults the table, and that of
default values, under that same key. The normalizing function is interpreted:
on every path it returns a lower-casing of its argument, or a constant that is
lower case, and it compares alternative spellings only with the lower-casing. The constant keys of the built-in tables are lower case and not
among the alternative spellings."""

from checks.attrs import *

TECH = "effect analysis of table accesses; abstract interpretation of MIR (provenance of keys), constants of the built-in tables"
NOTE = "All functions with mutable access to the table of attribute values, on all paths."


class Keys(Paths):
    def __init__(self, A, root):
        super().__init__(A, root)
        self.reads = []

    def call(self, I, st, ctx):
        if ctx.callee is not None and len(ctx.args) > 1 and ctx.types[0] is not None and not ctx.callee.local \
                and "HashMap" in ctx.types[0].peel().s and ctx.callee.name in ("get", "contains_key", "remove", "entry", "get_mut"):
            self.reads.append((ctx.args[1], ctx.span, ctx.callee.name))
        return super().call(I, st, ctx)


def check(p, rep):
    A = Attrs(p)
    norms = {}
    n = 0
    for r in A.roots():
        fn = p.fns[r]
        short = p.last(r)
        c = Keys(A, r)
        I = Interp(p, c)
        I.run(fn, ps=frozenset())
        for key, span, what in [(w.key, w.span, "write") for w in c.writes if w.key is not None] + c.reads:
            n += what == "write"
            k = "key/%s" % short
            rep.ob(k, loc(span))
            for x in I.phi_inputs(key):
                if x.op != "call" or x.a[0] not in p.fns or p.fns[x.a[0]].locals[0].s != "alloc::string::String" and \
                        "String" not in p.fns[x.a[0]].locals[0].s:
                    rep.bad(k, span, "%s uses %s as the name of an attribute, which is not normalized" % (r, show(x)))
                elif not any(y.op == "p" and y.a[0] != 1 for y in I.deepterms(x)):
                    rep.bad(k, span, "%s uses %s as the name of an attribute, which does not derive from the name given" % (r, show(x)))
                else:
                    norms.setdefault(x.a[0], (r, span))
    rep.floor("writes of attributes", n, 1)
    if len(norms) > 1:
        rep.bad("normalizer", list(norms.values())[1][1], "names are normalized in different ways: " + ", ".join(sorted(norms)))
    spellings = set()
    for f in sorted(norms):
        fn = p.fns[f]

        class N(Policy):
            def enter(self, I, ctx, f2, depth):
                return depth < 3

            def branch(self, I, st, fr, bi, t, value):
                for x in I.phi_inputs(t):
                    if x.op == "call" and x.a[0].split("::")[-1] == "eq" and value is True:
                        for y in x.a[1]:
                            if bare(I, y):
                                rep.bad("normalizer/" + p.last(f), fr.fn.span, "%s compares %s with an alternative spelling, which "
                                        "depends on the case of the name" % (f, show(y)))
                        spellings.update(y.a[1] for y in I.deepterms(x) if y.op == "const" and isinstance(y.a[1], str))
                        for y in x.a[1]:
                            if not any(z.op == "p" for z in I.deepterms(y)):
                                spellings.update(column(I, cols, y))

        cols = columns(p, fn)
        I = Interp(p, N())
        for st, v in I.run(fn, ps=frozenset()):
            for x in I.phi_inputs(v):
                rep.ob("normalizer/" + p.last(f), loc(fn.span))
                if x.op == "const" and isinstance(x.a[1], str):
                    if x.a[1] != x.a[1].lower():
                        rep.bad("normalizer/" + p.last(f), fn.span, "%s returns the constant %r, which is not lower case" % (f, x.a[1]))
                elif not any(y.op == "p" for y in I.deepterms(x)) and column(I, cols, x):
                    for text in sorted(column(I, cols, x)):
                        if text != text.lower():
                            rep.bad("normalizer/" + p.last(f), fn.span, "%s returns the constant %r, which is not lower case" % (f, text))
                elif not lowered(I, x):
                    rep.bad("normalizer/" + p.last(f), fn.span, "%s returns %s, which is not lower case" % (f, show(x)))
    # built-in tables
    m = 0
    for fn in p.fns.values():
        t = fn.locals[0]
        if fn.derived or t.k != "adt" or "HashMap<alloc::string::String" not in t.s or fn.argc:
            continue
        for bi, term, c in fn.calls():
            if c is not None and c.name == "insert" and len(term["a"]) == 3:
                for text in key_texts(p, fn, bi, term["a"][1]):
                    m += 1
                    rep.ob("built-in/" + text, loc(term["s"]))
                    if text != text.lower() or text in spellings:
                        rep.bad("built-in/" + text, term["s"], "the built-in name %r is not normalized: it cannot be changed" % text)
    rep.count("built-in names", m)


def columns(p, fn):
    """Texts of the constant tables that a function uses, by their position
    in the rows (None: all of them)."""
    out = {None: set()}
    todo, seen = [p.fns[f] for f in p.reach([fn.path]) if f in p.fns and (f == fn.path or base_fn(f) == fn.path)], set()
    while todo:
        f = todo.pop()
        if f.path in seen:
            continue
        seen.add(f.path)
        for _, b in f.live_blocks():
            for s in b["st"] + [b["t"]]:
                r = s.get("r")
                if r is not None and r["k"] == "agg" and r.get("ak") == "tuple":
                    for i, o in enumerate(r["o"]):
                        if "k" in o:
                            out.setdefault(i, set()).update(const_texts(p, o["k"]))
                for k in consts(s):
                    out[None].update(const_texts(p, k))
                    for n in (k.get("const"), k.get("promoted")):
                        if n is not None and norm(n) in p.fns:
                            todo.append(p.fns[norm(n)])
                    rows(k.get("v"), out)
    return out


def rows(v, out):
    if isinstance(v, dict):
        for i, x in enumerate(v.get("fields", ())):
            if isinstance(x, str):
                out.setdefault(i, set()).add(x)
            rows(x, out)
        rows(v.get("ref"), out)
    elif isinstance(v, list):
        for x in v:
            rows(x, out)


def column(I, cols, x):
    """The texts that a term which derives from constants only can be."""
    for y in I.deepterms(x):
        if y.op == "f" and str(y.a[2]).isdigit() and int(y.a[2]) in cols and y.a[1] is None:
            return cols[int(y.a[2])]
    return cols[None]


def lowered(I, x):
    if x.op == "call" and x.a[0].split("::")[-1] in ("to_lowercase", "to_ascii_lowercase"):
        return any(y.op == "p" for y in I.deepterms(x))
    return False


def bare(I, x, d=0):
    """The term contains the name as it was given, other than as part of its
    lower-casing."""
    if d > 20:
        return False
    for y in I.phi_inputs(x):
        if y.op == "p" or (y.op == "call" and not lowered(I, y) and any(bare(I, z, d + 1) for z in y.a[1])) or \
                (y.op == "cast" and bare(I, y.a[0], d + 1)):
            return True
    return False


def key_texts(p, fn, bi, o):
    """Constants an operand was made from, back through copies and calls of
    one argument."""
    pl = o.get("c") or o.get("m")
    if "k" in o:
        return const_texts(p, o["k"])
    out, todo, seen = [], [pl["l"]], set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for i, b in fn.live_blocks():
            for s in b["st"]:
                if s["p"]["l"] == l and "r" in s:
                    for k in consts(s["r"]):
                        out += const_texts(p, k)
                    todo += [x["l"] for x in operand_places(s["r"])]
            t = b["t"]
            if t["k"] == "call" and t["p"]["l"] == l and len(t["a"]) == 1:
                for a in t["a"]:
                    for k in consts(a):
                        out += const_texts(p, k)
                    todo += [x["l"] for x in operand_places(a)]
    return out
