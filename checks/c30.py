"""Every place where an inline pattern can match an escaping backslash is read
from the pattern. For each of them the handler of the match is interpreted
under the assumption that the backslash is there: tests of the matched text
are evaluated under that assumption, and no path may reach a renderer, a
passthrough store or a value looked up elsewhere, or emit the text with the
backslash; every path must emit something. A backslash that belongs to an
attribute list only keeps the list from being used. All patterns of a handler
must be escapable if one of them is."""

from checks.common import *
from checks import c02
from checks.c02 import CAP, RUN, Row, Reads, Patterns, Calls, phis, group
from engine.interp import *
from engine.rx import Node, Pattern, members, SAMPLES, vectors

TECH = "escape positions read from the patterns; abstract interpretation of the match handlers under the assumption that the escape matched"
NOTE = ("All match handlers with an escapable pattern, all escape positions, all paths. Group participation is over-approximated as in C02; "
        "a test of the matched text that the check does not understand is taken to go both ways.")

BS = SAMPLES.index("\\")
ANGLE = 1000     # pseudo group: a closing &gt; was matched


class Place:
    """One escape position of a pattern."""
    __slots__ = ("node", "groups", "begins", "exact", "lst", "own", "angle", "tail")

    def __init__(self):
        self.groups = []        # enclosing groups, outermost first, with 0
        self.begins = set()     # those that begin with the backslash
        self.exact = set()      # those that consist of the backslash(es)
        self.lst = None         # attribute list that follows
        self.own = False        # the escape belongs to the list itself
        self.angle = False      # an opening &lt; follows


def nullable(n):
    if n.kind in ("empty", "look"):
        return True
    if n.kind == "set":
        return False
    if n.kind == "grp":
        return nullable(n.a[1])
    if n.kind == "alt":
        return any(nullable(x) for x in n.a[0])
    if n.kind == "rep":
        return n.a[1] == 0 or nullable(n.a[0])
    return all(nullable(x) for x in n.a[0])


def void(n):
    """Only matches the empty text."""
    if n.kind in ("empty", "look"):
        return True
    if n.kind == "grp":
        return void(n.a[1])
    if n.kind == "cat":
        return all(void(x) for x in n.a[0])
    return False


def is_bs(n):
    return n.kind == "set" and BS in members(n.a[0])


def only_bs(n):
    return n.kind == "set" and members(n.a[0]) == frozenset([BS])


def places(n, first):
    """(node with the escape in place, [(enclosing group, begins, exact)],
    siblings that follow) for every escape position."""
    if n.kind == "set":
        if first and is_bs(n):
            yield Node("set", ("lit", "\\")), [], [], True, only_bs(n)
        return
    if n.kind == "grp":
        for m, gs, after, b, lit in places(n.a[1], first):
            yield Node("grp", n.a[0], m), gs + [(n.a[0], b, m.kind == "set" or (m.kind == "cat" and len([x for x in m.a[0] if not void(x)]) == 1 and only_bs(flat(m))))], after, b, lit
        return
    if n.kind == "alt":
        for x in n.a[0]:
            yield from places(x, first)
        return
    if n.kind == "rep":
        x, lo, hi = n.a
        if only_bs(x) and lo == 0 and hi is not None:
            yield (x if hi == 1 else Node("rep", x, 1, hi)), [], [], True, True
        elif hi == 1:
            for m, gs, after, b, lit in places(x, first):
                yield m, gs, after + [None], b, lit
        return
    if n.kind == "cat":
        f = first
        head = True
        for i, x in enumerate(n.a[0]):
            for m, gs, after, b, lit in places(x, f):
                yield Node("cat", n.a[0][:i] + [m] + n.a[0][i + 1:]), gs, after + n.a[0][i + 1:], b and head, lit
            if not void(x):
                head = False
            f = f and nullable(x)


def flat(n):
    while n.kind in ("cat", "grp", "rep"):
        if n.kind == "cat":
            rest = [x for x in n.a[0] if not void(x)]
            if len(rest) != 1:
                return n
            n = rest[0]
        elif n.kind == "grp":
            n = n.a[1]
        else:
            n = n.a[0]
    return n


def seq(nodes):
    for n in nodes:
        if n is None:
            yield None
        elif n.kind == "cat":
            yield from seq(n.a[0])
        elif n.kind == "rep" and n.a[2] == 1:
            # Optional parts are looked into.
            yield from seq([n.a[0]])
        else:
            yield n


def is_lit(n, c):
    return n is not None and n.kind == "set" and isinstance(n.a[0], tuple) and n.a[0] == ("lit", c)


def mark_angle(n):
    """Puts a group around every literal &gt;."""
    if n.kind == "cat":
        out, i = [], 0
        while i < len(n.a[0]):
            if all(i + k < len(n.a[0]) and is_lit(n.a[0][i + k], c) for k, c in enumerate("&gt;")):
                out.append(Node("grp", ANGLE, Node("cat", n.a[0][i:i + 4])))
                i += 4
            else:
                out.append(mark_angle(n.a[0][i]))
                i += 1
        return Node("cat", out)
    if n.kind == "alt":
        return Node("alt", [mark_angle(x) for x in n.a[0]])
    if n.kind == "grp":
        return Node("grp", n.a[0], mark_angle(n.a[1]))
    if n.kind == "rep":
        return Node("rep", mark_angle(n.a[0]), n.a[1], n.a[2])
    return n


def escapes(pat):
    out = []
    for node, gs, after, b, lit in places(pat.node, True):
        e = Place()
        e.node = node
        e.groups = [0] + [g for g, _, _ in reversed(gs)]
        e.begins = {g for g, x, _ in gs if x} | ({0} if b else set())
        e.exact = {g for g, _, x in gs if x and rep_one(node)}
        rest = after
        own = True
        follow = []
        for x in after:
            if x is None:
                own = False if not follow else own
                continue
            if not void(x):
                follow.append(x)
        flatrest = [x for x in seq(after) if x is not None and not void(x)]
        if len(flatrest) >= 3 and is_lit(flatrest[0], "[") and flatrest[1].kind == "grp" and is_lit(flatrest[2], "]"):
            e.lst = flatrest[1].a[0]
            first = next((x for x in after if x is not None and not void(x)), None)
            e.own = lit and first is not None and is_lit(first, "[")
            if not e.own and lit:
                # The escape of the whole construct.
                e.lst = None
        if [is_lit(x, c) for x, c in zip(flatrest, "&lt;")] == [True] * 4:
            e.angle = True
        out.append(e)
    return out


def rep_one(n):
    return not (n.kind == "rep")


class Forced(Pattern):
    """A pattern in which one escape is known to have matched."""

    def __init__(self, pat, e):
        self.text, self.count, self.names = pat.text, pat.count, pat.names
        self.node = mark_angle(e.node) if e.angle else e.node
        vs = frozenset(v | {0} for v in vectors(self.node))
        if e.angle:
            vs = frozenset(v - {ANGLE} for v in vs if ANGLE in v)
        self.vectors = vs


STD = ("core::", "alloc::", "std::", "regex::", "str::", "char::", "<alloc", "<core", "<str", "<char", "[T]::", "captures.", "eq", "is_empty",
       "new", "<&", "<T as", "<[T]", "<I as", "<regex", "<std")


class Handler(Reads):
    max_depth = 8

    def __init__(self, p, pats, row, root, dest, e, out):
        super().__init__(p, pats, [row], {}, {}, root)
        self.e, self.dest, self.out = e, dest, out
        self.pat = row.pat

    # --- what is known of the matched text -------------------------------

    def text(self, t):
        """Group whose whole text `t` is."""
        if t.op == "call" and t.a[0] == "captures.index" and t.a[1][0] is self.root:
            return cval(t.a[1][1])
        if t.op == "f" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] == "captures.get" and t.a[0].a[1][0] is self.root:
            return cval(t.a[0].a[1][1])
        if t.op == "call" and t.a[0] == "captures.get" and t.a[1][0] is self.root and cval(t.a[1][1]) == 0:
            return 0
        return None

    def first(self, t):
        """Whether `t` is the first character or byte of a group that begins
        with the backslash: "opt" if it may be absent, "char" if not."""
        if t.op == "idx" and self.text(t.a[0]) in self.e.begins and t.a[1] in (0, const(0)):
            return "char"
        if t.op == "f" and t.a[1] == "Some" and self.first(t.a[0]) == "opt":
            return "char"
        if t.op == "call" and t.a[1]:
            n, x = t.a[0].split("::")[-1], t.a[1][0]
            if n == "next" and x.op == "call" and x.a[0].split("::")[-1] in ("chars", "bytes") and self.text(x.a[1][0]) in self.e.begins:
                return "opt"
            if n == "first" and self.text(x) in self.e.begins:
                return "opt"
        return None

    def truth(self, t):
        e = self.e
        if self.first(t) == "opt":
            return "Some"
        if t.op == "call" and t.a[0].split("::")[-1] == "eq" and len(t.a[1]) == 2:
            for x, y in (t.a[1], t.a[1][::-1]):
                f = self.first(x)
                if f == "opt" and y.op == "agg":
                    if y.a[1] == "None":
                        return False
                    y = y.a[3][0]
                if f and y.op == "const":
                    return y.a[1] in ("\\", 92)
        if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if self.first(x) == "char" and y.op == "const":
                    return (y.a[1] in ("\\", 92)) == (t.a[0] == "Eq")
        if t.op == "call" and t.a[1]:
            n = t.a[0].split("::")[-1]
            g = self.text(t.a[1][0])
            if g is None and n == "eq" and len(t.a[1]) == 2:
                g = self.text(t.a[1][1])
                args = t.a[1][::-1]
            else:
                args = t.a[1]
            if g is None or g not in e.groups:
                return None
            if n == "is_empty":
                return False
            if len(args) < 2:
                return None
            c = strs(args[1])
            if c is None:
                return None
            if n == "contains" and "\\" in c:
                return True
            if n == "starts_with" and g in e.begins:
                if any(x == "\\" or x == "" for x in c):
                    return True
                if all(x[0] != "\\" for x in c):
                    return False
            if n == "strip_prefix" and g in e.begins and c == ["\\"]:
                return "Some"
            if n == "eq" and len(c) == 1:
                if g in e.exact and c[0] == "\\":
                    return True
                if g in e.exact or (g in e.begins and not c[0].startswith("\\")):
                    return c[0] == "\\" if g in e.exact else False
            return None
        if t.op == "bin":
            o, x, y = t.a[0], t.a[1], t.a[2]
            if self.length(y) and cval(x) is not None:
                x, y = y, x
                o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(o, o)
            k = cval(y)
            if not self.length(x) or not isinstance(k, int):
                return None
            one = x.op == "un" and self.text(x.a[1]) in self.e.exact
            if k == 0:
                return {"Gt": True, "Ge": True, "Ne": True, "Eq": False, "Lt": False, "Le": False}.get(o)
            if k == 1:
                r = {"Ge": True, "Lt": False}.get(o)
                if r is None and one:
                    r = {"Eq": True, "Ne": False, "Gt": False, "Le": True}.get(o)
                return r
        return None

    def length(self, t):
        if t.op == "call" and t.a[0].split("::")[-1] == "count" and t.a[1] and t.a[1][0].op == "call" and t.a[1][0].a[0].split("::")[-1] == "chars":
            return self.text(t.a[1][0].a[1][0]) in self.e.groups
        return t.op == "un" and t.a[0] == "len" and self.text(t.a[1]) in self.e.groups

    def branch(self, I, st, fr, bi, term, value):
        super().branch(I, st, fr, bi, term, value)
        if self.length(term):
            if value == 0 and value is not False and value is not None:
                raise Infeasible()
            return
        if self.first(term) == "char":
            if isinstance(value, int) and value != 92 or isinstance(value, str) and value != "\\":
                raise Infeasible()
            f = st.facts.get(term)
            if value is None and isinstance(f, tuple) and f[0] == "notint" and (92 in f[1] or "\\" in f[1]):
                raise Infeasible()
            return
        v = self.truth(term)
        if v is None:
            return
        if v == "Some":
            if value == "None":
                raise Infeasible()
        elif isinstance(value, bool) or value in (0, 1):
            if bool(value) != v:
                raise Infeasible()

    # --- what the handler does -------------------------------------------

    def listed(self, I, st):
        """Whether the escape may be that of an attribute list only."""
        if self.e.lst is None:
            return False
        return any(self.e.lst in v for _, v in self.agree(I, st, self.root, self.rows)) and self.known(st, self.e.lst) is not False

    def known(self, st, g):
        for t, vs in st.facts.items():
            if t.op == "call" and t.a[0] == "captures.get" and t.a[1][0] is self.root and cval(t.a[1][1]) == g and isinstance(vs, frozenset) and len(vs) == 1:
                return "Some" in vs
        return None

    def uses_list(self, I, st, args):
        seen = set()
        todo = [I.deep(st, a) for a in args]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.text(x) == self.e.lst:
                return True
            if x.op == "phi":
                todo += I.phi_inputs(x)
            todo += kids(x)
        return False

    def event(self, I, st, c, what, args):
        if self.listed(I, st) and self.sure_list(I, st):
            if not self.uses_list(I, st, args):
                return
            what = "the escaped attribute list is used: " + what
        self.out.setdefault((c.fr.fn.path, self.key(c)), (c.span, what))

    def sure_list(self, I, st):
        return all(self.e.lst in v for _, v in self.agree(I, st, self.root, self.rows))

    def key(self, c):
        return c.callee.name if c.callee else "call"

    def call(self, I, st, c):
        if c.path == "regex::regex::string::Match::len":
            return [(st, T("un", "len", I.deep(st, c.raw[0])))]
        r = super().call(I, st, c)
        if r is not None:
            return r
        if c.callee is None:
            return None
        takes = [k for k, a in enumerate(c.raw) if self.is_dest(I, a)]
        name = c.callee.name
        if takes and c.path.startswith("alloc::string::String::") or (takes and name in ("add_assign", "write_str", "write_char", "extend", "write_fmt")):
            if name.startswith(("push", "insert", "add_assign", "write", "extend")):
                st.ps = (True,)
                for k, a in enumerate(c.raw):
                    if k not in takes:
                        self.emitted(I, st, c, I.deep(st, a))
        elif takes and c.path.startswith(STD):
            # Only looks at what was emitted before.
            pass
        elif takes and not self.enter_path(c):
            self.event(I, st, c, "%s is called" % name, [a for k, a in enumerate(c.raw) if k not in takes])
            st.ps = (True,)
        elif 0 in self.e.begins and c.path in RUN and any(t is not None and t.peel().k == "adt" and t.peel().d in I.prog.adts and I.prog.adts[t.peel().d]["local"] for t in c.types):
            self.event(I, st, c, "the text is matched again by %s" % name, [])
        return None

    def enter_path(self, c):
        fn = self.p.fns.get(c.path)
        return fn is not None and (fn.path not in known_fns() or any(t is not None and CAP in t.s for t in c.types))

    def is_dest(self, I, a):
        root, path = I.target(a)
        return root is self.dest and not path

    def emitted(self, I, st, c, v):
        kept = None
        for x in phis(I, v):
            g = self.text(x)
            if g is not None and g in self.e.begins and not self.e.own:
                kept = g
        if kept is not None and not self.absent(st):
            self.out.setdefault((c.fr.fn.path, "kept"), (c.span, "the text is emitted with the backslash"))
        bad = foreign(I, v)
        if bad is not None:
            self.event(I, st, c, "%s gets into the text" % bad, [v])

    def absent(self, st):
        """A reference to an attribute that is not set is kept as it is."""
        return any(t.op == "call" and t.a[0].endswith("::has_attribute") and v is False for t, v in st.facts.items())


def kids(x):
    out = []
    for y in x.a:
        out += [z for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, Term)]
    return out


def foreign(I, v, d=0):
    if d > 12:
        return None
    for x in phis(I, v):
        if x.op == "call":
            if not x.a[0].startswith(STD):
                return x.a[0].split("::")[-1] + "()"
            if x.a[0].startswith("captures."):
                continue
        for z in kids(x):
            r = foreign(I, z, d + 1)
            if r is not None:
                return r
    return None


def strs(t):
    """Constant text(s) of a pattern argument."""
    if t.op == "const":
        v = t.a[1]
        if isinstance(v, str):
            return [v]
        if isinstance(v, int) and not isinstance(v, bool):
            return [chr(v)]
        return None
    if t.op == "ref" and isinstance(t.a[0], Term):
        return strs(t.a[0])
    if t.op in ("array", "tuple"):
        out = []
        for x in t.a[0]:
            s = strs(x)
            if s is None:
                return None
            out += s
        return out or None
    return None


def check(p, rep):
    pats = Patterns(p, rep)
    pats.tables()
    runs = {}
    cl = Calls(pats, runs)
    for fn in p.fns.values():
        if c02.runs_patterns(p, fn):
            Interp(p, cl).run(fn)
    nplaces = nh = 0
    for fn in sorted(p.fns.values(), key=lambda f: f.path):
        if "replace_append" not in fn.path.split("::")[-1] or "{closure" in fn.path:
            continue
        caps = [i for i in range(1, fn.raw["argc"] + 1) if CAP in fn.locals[i].s]
        dests = [i for i in range(1, fn.raw["argc"] + 1) if fn.locals[i].s.endswith("String") and fn.locals[i].s.startswith("&")]
        if not caps or not dests or fn.self_adt not in runs:
            continue
        rows = [r for _, rs in runs[fn.self_adt].values() for r in rs]
        with_e = [(r, escapes(r.pat)) for r in rows]
        with_e = [(r, es) for k, (r, es) in enumerate(with_e) if not any(r.pat is q.pat and r.fields == q.fields for q, _ in with_e[:k])]
        root, dest = T("p", caps[0]), T("p", dests[0])
        tests = Tests(root)
        Interp(p, tests).run(fn)
        if tests.found and not any(es for _, es in with_e):
            rep.bad("no-escape/" + fn.path, tests.found[0], "the handler looks for an escaping backslash, but no pattern it is run with can match one there")
        if not any(es for _, es in with_e):
            continue
        nh += 1
        for r, es in with_e:
            if not es:
                rep.bad("inescapable/%s/%s" % (fn.path, c02.short_pat(r)), fn.span,
                        "the pattern %r has no escape, but other patterns of this handler have" % c02.short_pat(r))
            for k, e in enumerate(es):
                nplaces += 1
                out = {}
                h = Handler(p, pats, Row(Forced(r.pat, e), r.fields), root, dest, e, out)
                I = Interp(p, h)
                ends = I.run(fn, (False,))
                key = "%s/%s/%d" % (fn.path, c02.short_pat(r), k)
                rep.ob(key, "%s: %d ways to return" % (loc(fn.span), len(ends)))
                for (f, n), (span, msg) in sorted(out.items()):
                    rep.bad("escape/%s/%s" % (f, n), span, "although %r matched its escaping backslash (position %d), %s" % (c02.short_pat(r), k, msg))
                if any(st.ps == (False,) for st, _ in ends):
                    rep.bad("dropped/%s" % fn.path, fn.span, "the escaped text of %r is dropped on some path" % c02.short_pat(r))
    rep.count("handlers with an escape", nh)
    rep.floor("escape positions", nplaces, 1)


class Tests(Reads):
    """Tests for a backslash at the start of a group."""

    def __init__(self, root):
        self.root, self.found, self.rows, self.max_states = root, [], None, 64

    def branch(self, I, st, fr, bi, term, value):
        pass

    def call(self, I, st, c):
        if c02.is_get(c):
            return [(st, T("call", "captures.get", (c.args[0], c.args[1]), ()))]
        if c02.is_index(c):
            return [(st, T("call", "captures.index", (c.args[0], c.args[1]), ()))]
        if c.callee is not None and c.callee.name in ("starts_with", "strip_prefix") and len(c.raw) > 1:
            if strs(I.deep(st, c.raw[1])) == ["\\"]:
                self.found.append(c.span)
        return None
