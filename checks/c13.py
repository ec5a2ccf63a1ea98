"""(1) Who may change the catalog's table of IDs: every call in the crate that
gets the table by mutable reference is an insertion, or an entry operation that
leaves an occupied entry as it is, and the table is never replaced. (2) Path
analysis of each insertion: the ID inserted was looked up in the same table and
found absent on every path, since the last insertion, and is the ID the entry
itself states. (3) Registration answers success only if it inserted the ID, and
refusal only if it found the ID and inserted nothing; generation returns the ID
that it inserted. (4) Each caller of registration, on the paths where it is
refused, pushes a duplicate-ID warning with that ID."""

from checks.common import *
from checks.c19 import callers_of
from engine.interp import Interp, Policy, T, known_fns, show, OPTION, RESULT

TECH = "effect analysis of table accesses; path-sensitive abstract interpretation of MIR (check before insert, typestate of refusals)"
NOTE = "All mutable accesses to the catalog's table in the crate and all callers of registration, on all paths."

KEEPS = {"or_insert", "or_insert_with", "or_insert_with_key", "or_default", "key", "into_key"}
SHARED = {"reserve", "shrink_to_fit"}


def is_table(ty, entry):
    t = ty.peel() if ty is not None else None
    return t is not None and t.k == "adt" and ("Map<" in t.s or t.s.endswith("Map")) and any(
        x.k == "adt" and x.d == entry for x in t.walk())


def optype(p, fn, o):
    if "k" in o:
        return p.types[o["k"]["t"]]
    pl = o.get("c") or o.get("m")
    if pl is None or pl.get("p"):
        return None
    return fn.locals[pl["l"]]


def base_fn(path):
    return re.sub(r"(::\{closure#\d+\})+$", "", path)


def roots_of(p, fns):
    """Known functions in which these functions are analysed."""
    out, todo, seen = set(), [base_fn(f) for f in fns], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        cs = {base_fn(x) for x in callers_of(p, f)} - {f}
        if f in known_fns() or not cs:
            out.add(f)
        else:
            todo.extend(cs)
    return sorted(out)


def check(p, rep):
    entry = p.adt("RefEntry")
    cat = p.adt("Catalog")
    tables = [f["name"] for f in p.fields(cat) if is_table(p.types[f["ty"]], entry)]
    if len(tables) != 1:
        raise FactsError("the catalog's table of IDs: found %s" % tables)
    table = tables[0]
    inserts = {}
    n = 0
    for fn in p.fns.values():
        if fn.derived or (fn.trait and p.last(fn.trait) in ("Clone", "PartialEq", "Eq", "Debug")):
            continue
        for bi, t, c in fn.calls():
            for a in t["a"]:
                ty = optype(p, fn, a)
                if ty is None:
                    continue
                if ty.k == "ref" and ty.mut and is_table(ty, entry):
                    n += 1
                    key = "access/%s/%s" % (base_fn(fn.path), c.name if c else "?")
                    rep.ob(key, loc(t["s"]))
                    if c is not None and c.local:
                        continue            # its own body is looked at
                    if c is None or c.name not in {"insert", "entry", "deref_mut", "try_insert"} | SHARED:
                        rep.bad(key, t["s"], "%s may change or remove entries of the catalog (%s)" % (fn.path, c.path if c else "a function pointer"))
                    elif c.name == "insert":
                        inserts.setdefault(fn.path, []).append(t["s"])
                s = ty.peel().s
                if c is not None and not c.local and "entry::" in s and p.last(entry) in s and ty.peel().d != entry and not is_table(ty, entry) and a is t["a"][0]:
                    n += 1
                    key = "access/%s/%s" % (base_fn(fn.path), c.name)
                    rep.ob(key, loc(t["s"]))
                    if "Vacant" in s and c.name == "insert":
                        continue
                    if c.name not in KEEPS and not (ty.k == "ref" and not ty.mut):
                        rep.bad(key, t["s"], "%s may change an occupied entry of the catalog (%s)" % (fn.path, c.path))
        # the table as a whole
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                pr = [e for e in s["p"].get("p", []) if isinstance(e, dict) and "f" in e]
                if pr and norm(pr[-1].get("adt", "")) == cat and pr[-1].get("n") == table and s["p"]["p"][-1] is pr[-1]:
                    n += 1
                    rep.bad("replace/" + fn.path, s["s"], "%s replaces the catalog's table" % fn.path)
    rep.floor("accesses to the table", n, 1)

    # (2), (3)
    def lookup(I, term):
        """(id, presence by result) if the term is a lookup in the table."""
        if term.op == "call" and term.a[1]:
            name = term.a[0].split("::")[-1]
            if name in ("contains_key", "get", "get_key_value") and len(term.a[1]) == 2:
                if any(x.op == "f" and x.a[2] == table for x in I.phi_inputs(term.a[1][0])) or (
                        term.a[1][0].op == "mut" and "HashMap" in term.a[1][0].a[0]):
                    return term.a[1][1]
        return None

    class Ins(Policy):
        def __init__(self, fn):
            self.n = 0
            self.fn = fn
            self.into = {f.path for f in p.fns.values() if f.self_adt == cat and f.kind == "fn" and f.path != fn.path
                         and f.path not in direct}

        def branch(self, I, st, fr, bi, term, value):
            xs = [lookup(I, y) for y in I.phi_inputs(term)]
            if not xs or any(x is None for x in xs):
                return
            ids = frozenset(str(i) for x in xs for i in I.idents(x))
            if value in (False, "None"):
                st.ps = frozenset(f for f in st.ps if f[0] != "absent") | {("absent", ids)}
            elif value in (True, "Some"):
                st.ps = frozenset(f for f in st.ps if f[0] != "absent") | {("present",)}

        def call(self, I, st, ctx):
            if ctx.callee is None or not ctx.args or not ctx.types[0] or not is_table(ctx.types[0], entry):
                if ctx.callee is not None and ctx.callee.name in KEEPS | {"insert"} and ctx.types and ctx.types[0] is not None \
                        and "Entry" in ctx.types[0].s and p.last(entry) in ctx.types[0].s:
                    # Entry operations keep what is there.
                    st.ps = st.ps | {("inserted", frozenset(["entry"]))}
                return None
            if ctx.callee.name == "entry":
                return None
            if ctx.callee.name != "insert":
                return None
            self.n += 1
            key = "insert/" + self.fn.path
            rep.ob(key, loc(ctx.span))
            absent = set()
            for f in st.ps:
                if f[0] == "absent":
                    absent |= f[1]
            ids = set(map(str, I.idents(ctx.args[1])))
            if not ids <= absent:
                rep.bad(key, ctx.span, "%s is entered in the catalog without having been found absent" % show(ctx.args[1]))
            e = ctx.args[2]
            if e.op == "agg" and e.a[0] == entry:
                own = dict(zip(e.a[2], e.a[3])).get("id")
                if own is not None and set(map(str, I.idents(own))) != ids:
                    rep.bad(key, ctx.span, "the entry for %s states the ID %s" % (show(ctx.args[1]), show(own)))
            st.ps = frozenset(f for f in st.ps if f[0] != "absent") | {("inserted", frozenset(ids))}
            return None

    direct = set()
    roots = [f for f in roots_of(p, inserts)]
    direct.update(roots)
    reg = p.method("Catalog", "register_ref")
    gen = p.method("Catalog", "generate_and_register_unique_id")
    got = 0
    for r in sorted(set(roots) | {reg.path, gen.path}):
        fn = p.fns[r]
        c = Ins(fn)
        if r not in roots:
            c.into = c.into | set(roots)
        I = Interp(p, c)
        key = "answer/" + r
        rets = I.run(fn, ps=frozenset())
        got += c.n
        for st, v in rets:
            rep.ob(key, loc(fn.raw["span"]))
            ins = [f for f in st.ps if f[0] == "inserted"]
            if fn.locals[0].d == RESULT:
                for x in I.phi_inputs(v):
                    if x.op != "agg":
                        rep.bad(key, fn.raw["span"], "%s returns %s" % (r, show(x)))
                    elif x.a[1] == "Ok" and not ins:
                        rep.bad(key, fn.raw["span"], "%s reports success although nothing was registered" % r)
                    elif x.a[1] == "Err" and (ins or not any(f[0] == "present" for f in st.ps)):
                        rep.bad(key, fn.raw["span"], "%s refuses an ID that it %s" % (r, "has registered" if ins else "has not found registered"))
            elif fn.path == gen.path:
                ids = set(map(str, I.idents(v)))
                if not ins or not any(ids <= f[1] or f[1] == {"entry"} for f in ins):
                    rep.bad(key, fn.raw["span"], "the generated ID %s is not the one that is registered" % show(v))
    rep.floor("insertions", got, 1)

    # (4)
    wt = p.adt("WarningType")
    sites = [f.path for f in p.fns.values() for _, _, c in f.calls() if c is not None and c.path == reg.path]

    class Refused(Policy):
        def __init__(self):
            self.n = 0

        def after(self, I, st, ctx, value):
            if ctx.path == reg.path:
                self.n += 1
                st.ps = st.ps | {("unchecked", value, frozenset(map(str, I.idents(ctx.args[1]))))}

        def branch(self, I, st, fr, bi, term, value):
            for f in st.ps:
                if f[0] == "unchecked" and f[1] is term:
                    st.ps = st.ps - {f}
                    if value == "Err":
                        st.ps = st.ps | {("refused", f[2])}

        def call(self, I, st, ctx):
            if ctx.callee is not None and ctx.callee.name in ("push", "insert", "extend", "push_back"):
                for x in I.deepterms(ctx.args[-1]):
                    if x.op == "agg" and x.a[0] == wt and x.a[1] == "DuplicateId":
                        ids = set(map(str, I.idents(x.a[3][0]))) if x.a[3] else set()
                        st.ps = frozenset(f for f in st.ps if not (f[0] == "refused" and ids <= f[1]))
            return None

    roots = [r for r in roots_of(p, sites) if p.fns[r].self_adt != cat]
    n = 0
    for r in roots:
        fn = p.fns[r]
        c = Refused()
        I = Interp(p, c)
        key = "refusal/" + r
        rep.ob(key, loc(fn.raw["span"]))
        for st, v in I.run(fn, ps=frozenset()):
            for f in st.ps:
                if f[0] == "unchecked":
                    rep.bad(key, fn.raw["span"], "%s ignores whether the ID was refused" % r)
                else:
                    rep.bad(key, fn.raw["span"], "%s can return without a warning about a refused ID" % r)
        n += c.n > 0
    rep.floor("callers of registration", n, 1)
