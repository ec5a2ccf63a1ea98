"""(1) Who may change the catalog's index of reference texts: every call that
gets it by mutable reference is an insertion or an entry operation that leaves
an occupied entry as it is, and the index is never replaced. (2) Path analysis
of each function that registers an element: where the entry carries a reference
text, that very text has been entered in the index, or was found there, by the
time the function returns, under the ID of the entry; what is entered in the
index belongs to an entry made on the same path; and a text is inserted only
where the index was found not to have it. (3) The queries answer from the
tables, for the text or ID asked for."""

from checks.common import *
from checks.c13 import roots_of, base_fn, optype, is_table, KEEPS, SHARED
from engine.interp import Interp, Policy, T, known_fns, show, OPTION
from engine.interp import Term

TECH = "effect analysis of index accesses; path-sensitive abstract interpretation of MIR (the two tables are updated in step)"
NOTE = "All mutable accesses to the catalog's index in the crate, all registrations and the queries, on all paths."


def is_index(ty, entry):
    t = ty.peel() if ty is not None else None
    return t is not None and t.k == "adt" and ("Map<" in t.s or t.s.endswith("Map")) and not any(
        x.k == "adt" and x.d == entry for x in t.walk()) and t.s.count("String") >= 2


def check(p, rep):
    entry = p.adt("RefEntry")
    cat = p.adt("Catalog")
    names = [f["name"] for f in p.fields(cat) if is_index(p.types[f["ty"]], entry)]
    tables = [f["name"] for f in p.fields(cat) if is_table(p.types[f["ty"]], entry)]
    if len(names) != 1 or len(tables) != 1:
        raise FactsError("the catalog's index of reference texts: found %s" % names)
    index, table = names[0], tables[0]

    # (1) Accesses by functions that have to do with the catalog.
    n = 0
    sites = set()
    for fn in p.fns.values():
        if fn.derived or (fn.trait and p.last(fn.trait) in ("Clone", "PartialEq", "Eq", "Debug")):
            continue
        near = any(x.k == "adt" and x.d in (cat, entry) for t in fn.locals for x in t.walk())
        for bi, t, c in fn.calls():
            for i, a in enumerate(t["a"]):
                ty = optype(p, fn, a)
                if ty is None or not near:
                    continue
                if ty.k == "ref" and ty.mut and is_table(ty, entry) and c is not None and c.name in ("insert", "entry"):
                    sites.add(fn.path)
                s = ty.peel().s
                mine = ty.k == "ref" and ty.mut and is_index(ty, entry)
                slot = i == 0 and "ntry<" in s and "String" in s and p.last(entry) not in s and ty.peel().d != entry
                if not mine and not slot or c is None:
                    continue
                n += 1
                sites.add(fn.path)
                key = "access/%s/%s" % (base_fn(fn.path), c.name)
                rep.ob(key, loc(t["s"]))
                if c.local:
                    continue                # its own body is looked at
                if mine and c.name not in {"insert", "entry", "deref_mut"} | SHARED or slot and not (
                        c.name in KEEPS - {"or_default"} or c.name == "insert" and "Vacant" in s or not (ty.k != "ref" or ty.mut)):
                    rep.bad(key, t["s"], "%s may change or remove what the catalog's index has (%s)" % (fn.path, c.path))
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                pr = [e for e in s["p"].get("p", []) if isinstance(e, dict) and "f" in e]
                if pr and norm(pr[-1].get("adt", "")) == cat and pr[-1].get("n") == index and s["p"]["p"][-1] is pr[-1]:
                    rep.bad("replace/" + fn.path, s["s"], "%s replaces the catalog's index" % fn.path)
    rep.floor("accesses to the index", n, 1)

    def within(I, t, field):
        return any(x.op == "f" and x.a[2] == field for y in I.phi_inputs(t) for x in I.deepterms(y))

    def ids(I, t):
        return frozenset(map(str, I.idents(t)))

    def made(I, st, clo):
        """What a closure gives, in terms of what it captured."""
        out = set()
        fn = p.fns.get(clo.a[0])
        if fn is None:
            return None
        J = Interp(p, Policy())
        for _, v in J.run(fn):
            for x in J.phi_inputs(v):
                if x.op == "f" and isinstance(x.a[-1], (int, str)) or x.op == "const":
                    out.add(x)
                else:
                    out.add(None)
        caps = list(clo.a[1])
        got = set()
        for x in out:
            if x is None:
                return None
            if x.op == "const":
                got |= {str(x)}
                continue
            k = [y for y in x.a[1:] if str(y).isdigit()]
            if not k or int(k[0]) >= len(caps):
                return None
            got |= ids(I, caps[int(k[0])])
        return frozenset(got)

    class Reg(Policy):
        keep_answers = True

        def __init__(self, fn):
            self.fn = fn
            self.n = 0

        def flagkey(self, I, st, fr):
            return frozenset((t, v) for t, v in st.facts.items() if t.op == "p" and isinstance(v, frozenset) and len(v) == 1
                             or t.op == "call" and t.a[1] and within(I, t.a[1][0], index))

        def seen(self, I, st, key):
            """Whether the index was found to have (True) or not to have the text."""
            r = None
            for t, v in st.facts.items():
                if t.op != "call" or not t.a[1] or not within(I, t.a[1][0], index):
                    continue
                name = t.a[0].split("::")[-1]
                if len(t.a[1]) == 2 and ids(I, t.a[1][1]) == key:
                    if name in ("contains_key", "get", "get_key_value") and v in (True, False, frozenset(["Some"]), frozenset(["None"])):
                        r = v is True or v == frozenset(["Some"])
                    if name == "entry" and isinstance(v, frozenset) and len(v) == 1:
                        r = "Occupied" in v
            return r

        def call(self, I, st, ctx):
            name = ctx.path.split("::")[-1]
            ty = ctx.types[0] if ctx.types else None
            if ty is None:
                return None
            vacant = not is_table(ty, entry) and "ntry<" in ty.peel().s and p.last(entry) in ty.peel().s and name in KEEPS | {"insert", "insert_entry"} and len(ctx.args) > 1
            if is_table(ty, entry) and name == "insert" or vacant:
                e = I.deep(st, ctx.args[1 if vacant else 2])
                self.n += 1
                key = "insert/" + self.fn.path
                rep.ob(key, loc(ctx.span))
                if e.op != "agg":
                    rep.bad(key, ctx.span, "%s registers an entry that is not understood (%s)" % (self.fn.path, show(e)))
                    return None
                e = dict(zip(e.a[2], e.a[3]))
                st.ps = st.ps | {("entry", ids(I, e["id"] if vacant else ctx.args[1]), e.get("reftext"))}
            elif is_index(ty, entry) and name == "insert":
                k = ids(I, ctx.args[1])
                key = "index/" + self.fn.path
                rep.ob(key, loc(ctx.span))
                if self.seen(I, st, k) is not False:
                    rep.bad(key, ctx.span, "%s is entered in the index although it may be there for an earlier element" % show(ctx.args[1]))
                st.ps = st.ps | {("index", k, ids(I, ctx.args[2]))}
            elif "ntry<" in ty.peel().s and name in KEEPS | {"insert"} and p.last(entry) not in ty.peel().s:
                of = [x for x in I.deepterms(ctx.args[0]) if x.op == "call" and x.a[0].split("::")[-1] == "entry" and len(x.a[1]) == 2
                      and within(I, x.a[1][0], index)]
                if not of or len(ctx.args) < 2:
                    return None
                key = "index/" + self.fn.path
                rep.ob(key, loc(ctx.span))
                v = ctx.args[1]
                got = made(I, st, v) if v.op == "clo" else None
                if got is None:
                    got = frozenset().union(*[ids(I, x) for x in v.a[1]]) if v.op == "clo" else ids(I, v)
                st.ps = st.ps | {("index", ids(I, of[0].a[1][1]), got)}
            return None

    got = 0
    for r in roots_of(p, sites):
        fn = p.fns[r]
        c = Reg(fn)
        I = Interp(p, c)
        key = "step/" + r
        for st, v in I.run(fn, ps=frozenset()):
            rep.ob(key, loc(fn.raw["span"]))
            entries = [f for f in st.ps if f[0] == "entry"]
            index_of = [f for f in st.ps if f[0] == "index"]
            texts = set()
            silent = False
            for _, eid, text in entries:
                if text is None:
                    continue
                silent |= any(x.op == "agg" and x.a[1] == "None" for x in I.phi_inputs(I.deep(st, text)))
                for x in I.phi_inputs(I.deep(st, text)):
                    if x.op == "agg":
                        if x.a[1] != "Some":
                            continue
                        val = x.a[3][0]
                    else:
                        val = T("f", x, "Some", 0)
                    opt = [y.a[0] for y in I.phi_inputs(val) if y.op == "f" and y.a[1] == "Some"]
                    if opt and all(isinstance(st.facts.get(o), frozenset) and "Some" not in st.facts[o] for o in opt):
                        continue        # there is none on this path
                    k = ids(I, val)
                    texts.add(k)
                    mine = [f for f in index_of if f[1] == k]
                    if any(f[2] != eid for f in mine):
                        rep.bad(key, fn.raw["span"], "%s enters a reference text in the index for another ID than the one registered" % r)
                    elif not mine and c.seen(I, st, k) is not True:
                        rep.bad(key, fn.raw["span"], "%s registers an entry, but can leave its reference text out of the index" % r)
            for f in index_of:
                if f[1] not in texts or silent:
                    rep.bad(key, fn.raw["span"], "%s enters a text in the index that is not the reference text of an entry registered with it" % r)
        got += c.n
    rep.floor("registrations", got, 1)

    # (3)
    class Q(Policy):
        keep_answers = True

        def flagkey(self, I, st, fr):
            return frozenset((t, v) for t, v in st.facts.items() if t.op == "call" and t.a[1] and within(I, t.a[1][0], index))

    for meth, field in (("resolve_id", index), ("get_ref", table), ("contains_id", table)):
        fn = p.method("Catalog", meth)
        I = Interp(p, Q())
        key = "query/" + meth
        rep.ob(key, loc(fn.raw["span"]))

        def asks(x):
            return x.op == "call" and x.a[0].split("::")[-1] in ("get", "contains_key", "get_key_value") and len(x.a[1]) == 2 \
                and within(I, x.a[1][0], field) and all(y == "p(2)" or y == "arg2" for y in map(str, I.idents(x.a[1][1])))

        for st, v in I.run(fn):
            for x in I.phi_inputs(I.deep(st, v)):
                terms = set(I.deepterms(x)) | {y for t in st.facts for y in I.deepterms(t)}
                if not any(asks(y) for y in terms):
                    rep.bad(key, fn.raw["span"], "%s can answer %s without having looked up what it was asked for in %s" % (fn.path, show(x), field))
                elif x.op == "agg" and x.a[1] == "None" and not any(asks(t) and v == frozenset(["None"]) for t, v in st.facts.items()):
                    rep.bad(key, fn.raw["span"], "%s can answer None although it found what it was asked for in %s" % (fn.path, field))
