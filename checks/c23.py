"""The preprocessor's state is the type that holds the output, the source map
and the output line number. The functions that change these are interpreted
path by path (helpers in place). (1) Whenever the next input line is taken, an
entry is added to the map, another file is entered, or the function returns,
the line number has been advanced by exactly the number of line ends emitted;
all text emitted is a line of input, or has a known number of line ends. (2) No
line is emitted before an entry was added to the map since the start of the
file (unless the file has no name) and since the last included file. (3) Every
entry is for the current output line number and states the name of the file
that is being read and the number of the input line that was taken. (4) Where
the preprocessor returns an empty map it returns the source as it is, and only
if the file has no name; otherwise it returns output and map of one state. (5)
A line is looked up by binary search: the answer is the entry for the line, or
has the file of the entry before and the line of that entry advanced by the
distance, or is the line itself if it is before the first entry."""

from checks.common import *
from checks.c13 import roots_of
from checks.c19 import callers_of
from engine.interp import Interp, Policy, T, show, OPTION

TECH = "path-sensitive abstract interpretation of MIR (balance of lines and line numbers; typestate of the map's entries)"
NOTE = "All functions that change the preprocessor's output, on all paths."

WRITES = {"push_str", "push", "write_fmt", "write_str", "write_char", "add_assign", "extend"}
READS = {"len", "is_empty", "as_str", "capacity", "reserve", "deref", "clone", "ends_with"}


def check(p, rep):
    smap = p.adt("SourceMap")
    sline = p.adt("SourceLine")
    owners = []
    for a, d in p.adts.items():
        if d["local"] and d["kind"] == "struct":
            tys = {f["name"]: p.types[f["ty"]] for f in p.fields(a)}
            out = [n for n, t in tys.items() if t.s == "alloc::string::String"]
            mp = [n for n, t in tys.items() if t.adt() == smap and t.k == "adt"]
            if len(out) == 1 and len(mp) == 1:
                owners.append((a, out[0], mp[0], [n for n, t in tys.items() if t.s == "usize"]))
    if len(owners) != 1:
        raise FactsError("the preprocessor's state: found %s" % [o[0] for o in owners])
    owner, out, mp, nums = owners[0]

    def field(pl):
        for e in reversed(pl.get("p", [])):
            if isinstance(e, dict) and "f" in e and norm(e.get("adt", "")) == owner:
                return e.get("n")
        return None

    def places(x):
        return [y for y in operand_places(x)]

    touch = set()
    for fn in p.fns.values():
        if fn.derived:
            continue
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if field(s["p"]) in [out, mp] + nums:
                    touch.add(fn.path)
                if r and r["k"] in ("ref", "rawptr") and r.get("mut") and field(r["p"]) in [out, mp] + nums:
                    touch.add(fn.path)
    roots = roots_of(p, touch)
    rep.floor("functions that change the output", len(roots), 1)
    state = {"lines": 0, "entries": 0, "nested": 0}
    num = None
    for r in roots:
        num = analyse(p, rep, p.fns[r], owner, out, mp, nums, sline, smap, set(roots), state)
    rep.floor("places where output is emitted", state["lines"], 1)
    rep.floor("places where an entry is added to the map", state["entries"], 1)
    rep.floor("places where another file is entered", state["nested"], 1)
    entry(p, rep, owner, out, mp, smap)
    lookup(p, rep, smap, sline)


def is_line(I, x, d=0):
    """A line taken from the input: has no line end."""
    return all(is_line1(I, y, d) for y in I.phi_inputs(x))


def is_line1(I, y, d):
    if y.op == "call" and d < 6 and y.a[0].split("::")[-1] in ("data", "deref", "as_ref", "as_str", "to_owned", "to_string", "clone", "into", "trim_end", "trim", "borrow"):
        return is_line(I, y.a[1][0], d + 1)
    if y.op == "f" and y.a[2] == "data":
        return is_line(I, y.a[0], d + 1)
    return y.op == "f" and y.a[2] == "item" and all(
        z.op == "call" and z.a[0].split("::")[-1] in ("take_line", "take_normalized_line") for z in I.phi_inputs(y.a[0]))


def analyse(p, rep, fn, owner, out, mp, nums, sline, smap, roots, state):
    short = p.last(fn.path)
    names = [i + 1 for i in range(fn.argc) if fn.locals[i + 1].k == "adt" and fn.locals[i + 1].d == OPTION]
    counter = {n for n in nums}
    problems = {}
    seen = {"lines": set(), "entries": set(), "nested": set()}

    def bad(key, span, msg):
        problems.setdefault((key, loc(span)), msg)

    def get(st, k):
        for x in st.ps:
            if x[0] == k:
                return x[1]

    def put(st, k, v):
        st.ps = frozenset(x for x in st.ps if x[0] != k) | {(k, v)}

    def of_state(root, path, n):
        return bool(path) and path[-1] == n

    def newlines(I, x):
        """Line ends in emitted text; None if unknown."""
        ns = set()
        for y in I.phi_inputs(x):
            if y.op == "const" and isinstance(y.a[1], str):
                ns.add(y.a[1].count("\n"))
            elif y.op == "const" and isinstance(y.a[1], int) and not isinstance(y.a[1], bool):
                ns.add(1 if y.a[1] == 10 else 0)
            elif is_line1(I, y, 0):
                ns.add(0)
            elif y.op == "fmt" or (y.op == "call" and y.a[0].split("::")[-1] in ("format", "must_use") and len(y.a[1]) == 1):
                if y.op != "fmt":
                    ns.add(newlines(I, y.a[1][0]))
                    continue
                k = 0
                for part in y.a[0]:
                    if isinstance(part, str):
                        k += part.count("\n")
                        continue
                    vals = [newlines(I, z) if not name_of(I, z) else 0 for z in I.phi_inputs(part)]
                    if None in vals or len(set(vals)) != 1:
                        return None
                    k += vals[0]
                ns.add(k)
            elif name_of(I, y):
                ns.add(0)
            else:
                return None
        return ns.pop() if len(ns) == 1 else None

    def name_of(I, z):
        """The name of the file (a parameter): has no line end."""
        return any(w.op == "p" and w.a[0] in names for w in I.deepterms(z)) and not any(
            w.op == "call" and w.a[0].endswith("take_line") for w in I.deepterms(z))

    class C(Policy):
        into = {f.path for f in p.fns.values() if f.self_adt == owner and f.path not in roots}

        def counted(self, I, x, been):
            """Whether this is the line number, possibly advanced on this path."""
            for y in I.phi_inputs(x):
                if y in been:
                    continue
                been.add(y)
                if y.op == "f" and y.a[2] == self.num:
                    continue
                if y.op == "f" and y.a[0].op == "bin":
                    y = y.a[0]
                if not (y.op == "phi" or y.op == "bin" and y.a[0].startswith("Add") and y.a[2].op == "const" and self.counted(I, y.a[1], been)):
                    return False
            return True

        def balance(self, st, span, what):
            b = get(st, "bal")
            if b != 0:
                bad("line-number/" + short, span, "%s: on a path to here, where %s, the output line number is %s" % (
                    fn.path, what, "unknown" if b is None else "%d behind the lines emitted" % b if b > 0 else "%d ahead of the lines emitted" % -b))
                put(st, "bal", 0)

        def shift(self, st, span, k):
            b = get(st, "bal")
            if k is None or b is None or abs(b + k) > 3:
                put(st, "bal", None)
            else:
                put(st, "bal", b + k)

        def branch(self, I, st, fr, bi, term, value):
            if value == "None" and all(x.op == "p" and x.a[0] in names for x in I.phi_inputs(term)):
                if get(st, "origin") == "start":
                    put(st, "origin", "unnamed")

        def assign(self, I, st, fr, bi, span, lv, v):
            root, path = lv
            if not path or path[-1] not in counter:
                return
            b = fr.fn.blocks[bi]
            if not any(isinstance(e, dict) and "f" in e and norm(e.get("adt", "")) == owner
                       for s in b["st"] if s["s"] is span for e in s["p"].get("p", [])[-1:]):
                return
            ks = set()
            for x in I.phi_inputs(v):
                if x.op == "f" and x.a[0].op == "bin":
                    x = x.a[0]
                if x.op == "bin" and x.a[0].startswith("Add") and x.a[2].op == "const":
                    ks.add(x.a[2].a[1])
                else:
                    ks.add(None)
            if path[-1] != self.num:
                return
            if len(ks) != 1 or None in ks:
                bad("line-number/" + short, span, "%s sets the output line number to %s" % (fn.path, show(v)))
                ks = {0}
            self.shift(st, span, -ks.pop())

        def call(self, I, st, ctx):
            c = ctx.callee
            if c is None:
                return None
            if c.name == "append" and ctx.types and ctx.types[0] is not None and ctx.types[0].peel().adt() == smap:
                seen["entries"].add(loc(ctx.span))
                self.balance(st, ctx.span, "an entry is added to the map")
                put(st, "origin", "known")
                key = "entry/" + short
                for x in I.phi_inputs(ctx.args[1]):
                    if not self.counted(I, x, set()):
                        bad(key, ctx.span, "%s adds an entry for line %s, not for the output line number" % (fn.path, show(x)))
                for x in I.phi_inputs(ctx.args[2]):
                    if x.op != "agg" or x.a[0] != sline:
                        bad(key, ctx.span, "%s adds the entry %s" % (fn.path, show(x)))
                        continue
                    f, l = x.a[3]
                    if not all(name_of(I, y) or (y.op == "agg" and y.a[1] == "None") for y in I.phi_inputs(f)):
                        bad(key, ctx.span, "%s adds an entry with the file name %s, not that of the file being read" % (fn.path, show(f)))
                    for y in I.phi_inputs(l):
                        ok = y.op == "call" and y.a[0].split("::")[-1] == "line" and is_line(I, y.a[1][0])
                        ok = ok or (y.op == "f" and y.a[2] == "line" and is_line(I, y.a[0]))
                        if not ok:
                            bad(key, ctx.span, "%s adds an entry for the input line %s, not for the line taken" % (fn.path, show(y)))
                return [(st, T("tuple", ()))]
            if c.path in roots:
                seen["nested"].add(loc(ctx.span))
                self.balance(st, ctx.span, "another file is entered")
                r = I.opaque(st, ctx, ctx.fr)
                for s2, _ in r:
                    put(s2, "origin", "nested")
                return r
            if c.name in ("take_line", "take_normalized_line"):
                self.balance(st, ctx.span, "the next line is taken")
            raw = ctx.raw[0] if ctx.raw else None
            if raw is not None and raw.op == "ref" and raw.a[1] and raw.a[1][-1] == out and ctx.types[0] is not None \
                    and ctx.types[0].peel().s == "alloc::string::String" and not c.local:
                if c.name not in WRITES:
                    if ctx.types[0].mut and c.name not in READS:
                        bad("emit/" + short, ctx.span, "%s changes the output by %s" % (fn.path, c.name))
                    return None
                seen["lines"].add(loc(ctx.span))
                if get(st, "origin") in ("start", "nested"):
                    bad("origin/" + short, ctx.span, "%s: on a path to here, a line is emitted %s before its origin was added to the map" % (
                        fn.path, "at the start of a file with a name" if get(st, "origin") == "start" else "after an included file"))
                k = newlines(I, ctx.args[1])
                if k is None:
                    bad("emit/" + short, ctx.span, "%s emits %s, which may have any number of line ends" % (fn.path, show(ctx.args[1])))
                    k = 0
                self.shift(st, ctx.span, k)
                return None
            return None

        def flagkey(self, I, st, fr):
            return [st.ps]

    c = C()
    # the counter is the number that entries are added for
    c.num = counter_of(p, owner, nums, smap)
    rep.ob("counter/" + c.num, loc(fn.span))
    I = Interp(p, c)
    rets = I.run(fn, ps=frozenset({("bal", 0), ("origin", "start")}))
    for st, v in rets:
        c.balance(st, fn.span, "it returns")
    for (key, where), msg in sorted(problems.items()):
        rep.bad(key, where, msg)
    for k, vs in seen.items():
        state[k] += len(vs)
        for v in sorted(vs):
            rep.ob({"lines": "emit/", "entries": "entry/", "nested": "nested/"}[k] + short, v)
    return c.num


def counter_of(p, owner, nums, smap):
    """The number among the state's fields that starts at one."""
    for fn in p.fns.values():
        if fn.derived:
            continue
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and norm(r.get("d", "")) == owner:
                    one = [n for n, o in zip(r["fn"], r["o"]) if n in nums and "k" in o and o["k"].get("v") == 1]
                    if len(one) == 1:
                        return one[0]
    raise FactsError("no line number in the preprocessor's state starts at 1")


def entry(p, rep, owner, out, mp, smap):
    """(4)"""
    n = 0
    for fn in p.fns.values():
        t = fn.locals[0]
        if fn.derived or fn.kind != "fn" or not (t.k == "tuple" and any(x.adt() == smap for x in t.walk())):
            continue
        n += 1
        key = "result/" + p.last(fn.path)

        class C(Policy):
            def branch(self, I, st, fr, bi, term, value):
                fs = list(I.phi_inputs(term))
                if value in ("None", "Some") and all(x.op == "f" and "name" in x.a[2] for x in fs):
                    st.ps = frozenset([value])

            def flagkey(self, I, st, fr):
                return [st.ps]

        I = Interp(p, C())
        for st, v in I.run(fn, ps=frozenset()):
            for x in I.phi_inputs(v):
                rep.ob(key, loc(fn.span))
                if x.op != "tuple" or len(x.a[0]) != 2:
                    rep.bad(key, fn.span, "%s returns %s" % (fn.path, show(x)))
                    continue
                text, m = x.a[0]
                ms = list(I.phi_inputs(m))
                ts = list(I.phi_inputs(text))
                plain = [y for y in ms if (y.op == "agg" and y.a[0] == smap) or (
                    y.op == "call" and y.a[0].split("::")[-1] in ("default", "new"))]
                if plain:
                    if len(plain) < len(ms) or not all(y.op == "p" and y.a[0] == 1 for y in ts):
                        rep.bad(key, fn.span, "%s returns an empty map together with text that is not the source" % fn.path)
                    if "Some" in st.ps or "None" not in st.ps:
                        rep.bad(key, fn.span, "%s returns an empty map although the file may have a name" % fn.path)
                else:
                    a = {str(y.a[0]) for y in ts if y.op == "f" and y.a[2] == out}
                    b = {str(y.a[0]) for y in ms if y.op == "f" and y.a[2] == mp}
                    if a != b or len(a) != len(ts):
                        rep.bad(key, fn.span, "%s returns %s with the map %s" % (fn.path, show(text), show(m)))
    rep.floor("results of preprocessing", n, 1)


def lookup(p, rep, smap, sline):
    """(5)"""
    n = 0
    for fn in p.fns.values():
        if fn.derived or fn.kind != "fn" or fn.argc != 2 or fn.locals[1].peel().adt() != smap or \
                fn.locals[2].s != "usize" or not any(x.adt() == sline for x in fn.locals[0].walk()):
            continue
        n += 1
        key = "lookup/" + p.last(fn.path)
        searched = []
        bad = set()

        class C(Policy):
            def call(self, I, st, ctx):
                c = ctx.callee
                if c is not None and (c.name.startswith("binary_search") or c.name == "partition_point"):
                    searched.append(ctx.span)
                return None

            def branch(self, I, st, fr, bi, term, value):
                for x in I.phi_inputs(term):
                    if x.op == "bin" and x.a[0] in ("Eq", "Ne", "Gt") and is_err(x.a[1]) and x.a[2].op == "const" and x.a[2].a[1] == 0:
                        zero = (str(value) in ("True", "1")) == (x.a[0] == "Eq")
                    elif is_err(x):
                        # switch on the number itself
                        zero = str(value) in ("False", "0")
                    else:
                        continue
                    v = "first" if zero else "later"
                    st.ps = frozenset(y for y in st.ps if y not in ("first", "later")) | {v}

            def flagkey(self, I, st, fr):
                return [st.ps]

            def aggregate(self, I, st, fr, bi, span, t):
                if t.a[0] != sline:
                    return
                f, l = t.a[3]
                terms = []
                linear(I, l, 1, terms)
                for g in I.phi_inputs(f):
                    if g.op == "agg" and g.a[1] == "None":
                        if not (len(terms) == 1 and terms[0][0] == 1 and terms[0][1].op == "p"):
                            bad.add("%s answers with no file and line %s" % (fn.path, show(l)))
                        if searched and "first" not in st.ps:
                            bad.add("%s answers with no file for lines after the first entry" % fn.path)
                        continue
                    e = entry_of(g, ["1", "0"])
                    want = {"key": 0, "line": 0, "at": 0}
                    for s, t in terms:
                        if t.op == "p" and s > 0:
                            want["key"] += 1
                        elif e is not None and s > 0 and entry_of(t, ["1", "1"]) == e:
                            want["line"] += 1
                        elif e is not None and s < 0 and entry_of(t, ["0"]) == e:
                            want["at"] += 1
                        else:
                            want["key"] = 9
                    if want != {"key": 1, "line": 1, "at": 1}:
                        bad.add("%s answers with line %s, which is not the entry's line advanced by the distance to it" % (fn.path, show(l)))
                    elif searched and not (is_ok(e) or e.op == "bin" and e.a[0].startswith("Sub") and is_err(e.a[1]) and e.a[2].op == "const" and e.a[2].a[1] == 1
                                           or e.op == "f" and e.a[0].op == "bin" and is_err(e.a[0].a[1]) and e.a[0].a[2].op == "const" and e.a[0].a[2].a[1] == 1):
                        bad.add("%s answers from entry %s, not from the last one before the line" % (fn.path, show(e)))

        def is_err(x):
            if x.op == "call" and x.a[0].split("::")[-1] == "partition_point":
                return True
            return x.op == "f" and x.a[0].op == "call" and x.a[0].a[0].split("::")[-1].startswith("binary_search") and "Err" in str(x.a[1:])

        def is_ok(x):
            return x.op == "f" and x.a[0].op == "call" and x.a[0].a[0].split("::")[-1].startswith("binary_search") and "Ok" in str(x.a[1:])

        def entry_of(x, part):
            """Which entry (the term for its index) x is this part of."""
            while x.op == "call" and x.a[0].split("::")[-1] in ("clone", "cloned", "to_owned", "deref"):
                x = x.a[1][0]
            for name in reversed(part):
                if x.op != "f" or x.a[2] != name:
                    return None
                x = x.a[0]
            while x.op in ("f", "call"):
                if x.op == "call" and x.a[0].split("::")[-1] in ("get", "index", "get_unchecked"):
                    return x.a[1][1]
                x = x.a[0] if x.op == "f" else x.a[1][0] if x.a[1] else T("const", None, None)
            return None

        def linear(I, x, sign, out):
            if x.op == "f" and x.a[0].op == "bin":
                x = x.a[0]
            if x.op == "bin" and x.a[0][:3] in ("Add", "Sub"):
                linear(I, x.a[1], sign, out)
                linear(I, x.a[2], sign if x.a[0].startswith("Add") else -sign, out)
            elif x.op == "call" and x.a[0].split("::")[-1] in ("add", "sub", "saturating_sub", "wrapping_sub", "wrapping_add", "saturating_add") and len(x.a[1]) == 2:
                linear(I, x.a[1][0], sign, out)
                linear(I, x.a[1][1], sign if "add" in x.a[0].split("::")[-1] else -sign, out)
            else:
                out.append((sign, x))

        I = Interp(p, C())
        for st, v in I.run(fn, ps=frozenset()):
            for x in I.phi_inputs(v):
                rep.ob(key, loc(fn.span))
                if x.op == "agg" and x.a[1] == "None":
                    continue
                for y in (I.phi_inputs(x.a[3][0]) if x.op == "agg" and x.a[1] == "Some" else [x]):
                    if y.op != "agg":
                        i = entry_of(y, ["1"])
                        if i is None or not (is_ok(i) or not searched):
                            bad.add("%s answers with %s, which is not the entry found for the line" % (fn.path, show(y)))
        for m in sorted(bad):
            rep.bad(key, fn.span, m)
    rep.floor("functions that look a line up in the map", n, 1)
