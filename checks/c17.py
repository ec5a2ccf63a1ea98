"""Every method of the built-in renderer that writes output is interpreted over
all paths. What it writes is then read as HTML, piece by piece: fixed texts move
between text, tag and quoted value; a value from the document may stand in text
or between quotes, and between quotes only if it cannot contain the quote that
surrounds it (it is built from fixed texts without it and from texts in which all
of its occurrences have been replaced). Every tag ends where the method ends."""

from checks.common import *
from engine.interp import *

TECH = "path-sensitive dataflow; the assembled output is run through an automaton for tags and quoted values"
NOTE = ("All methods of the built-in renderer, all paths, all documents. The text between tags is not regarded. A value is "
        "taken to be safe only if all quotes in it are replaced or tested for on the way; other ways of encoding it would be reported.")

APPEND = {"push_str", "push", "write_str", "write_char", "add_assign", "write_fmt", "extend", "extend_one"}
EMPTY = {"new", "with_capacity", "default"}
#: calls that only leave out, or change the case of, parts of a text
PARTS = {"trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "to_lowercase", "to_uppercase",
         "to_ascii_lowercase", "to_ascii_uppercase", "as_str", "deref", "to_string", "to_owned", "clone", "into", "from", "as_ref",
         "into_owned", "chars", "rev", "iter", "into_iter", "copied", "cloned", "as_slice", "next", "into_string", "into_boxed_str",
         "unwrap_or_default", "strip_prefix", "strip_suffix"}
NUMBERS = {"len", "count"}


#: tests whose failure shows that a text does not contain a quote
FIND = {"contains", "find", "rfind", "split_once", "rsplit_once", "position"}


class Bad(Exception):
    pass


class C(Policy):
    max_depth = 10
    max_states = 48

    def __init__(self, p, into, encoders=()):
        self.p, self.home, self.encoders = p, into, encoders

    def enter(self, I, ctx, fn, depth):
        if fn.path in self.encoders:
            return False
        return fn.path not in known_fns() or self.home(fn)

    def call(self, I, st, c):
        """Keeps what is known about a character when it is written."""
        nm = c.path.split("::")[-1]
        if nm in ("push", "write_char") and len(c.raw) == 2 and c.types[1] is not None and c.types[1].peel().k == "char":
            ch = I.deep(st, c.raw[1])
            if ch.op != "const":
                known = frozenset(q for q in "\"'" if self.isnot(I, st, ch, q))
                if known:
                    root, path = I.target(c.raw[0])
                    I.write(st, root, path, T("mut", c.path, 0, (I.deep(st, c.raw[0]), T("without", ch, known)), c.site))
                    return [(st, UNIT)]
        return None

    def flagkey(self, I, st, fr):
        """Searches of a whole text for a quote."""
        return frozenset((t, v) for t, v in st.facts.items() if searched(t) and t.a[1][0].op != "phi")

    def isnot(self, I, st, ch, q):
        for t, v in st.facts.items():
            if t.op in ("bin", "call") and v is False and t.a[0] in ("Eq", "eq"):
                xs = t.a[1:] if t.op == "bin" else t.a[1]
                if ch in xs and any(quote(x) == q for x in xs):
                    return True
            if t.op in ("bin",) and v is True and t.a[0] == "Ne" and ch in t.a[1:] and any(quote(x) == q for x in t.a[1:]):
                return True
            if t is ch and isinstance(v, tuple) and v and v[0] == "notint" and ord(q) in v[1]:
                return True
        return False


def quote(x):
    v = cval(x) if hasattr(x, "op") else None
    if isinstance(v, int) and not isinstance(v, bool) and v in (34, 39):
        return chr(v)
    if v in ('"', "'"):
        return v
    return None


def searched(t):
    """The quote that a test looks for in a text."""
    return t.op == "call" and last(t) in FIND and len(t.a[1]) == 2 and quote(t.a[1][1])


def text(t):
    v = cval(t)
    if isinstance(v, str):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return chr(v) if 0 <= v < 0x110000 else None
    return None


def last(t):
    return t.a[0].split("::")[-1]


class Reader:
    """States: "text", "tag", or the quote that surrounds a value."""

    def __init__(self, p, I, into, encoders):
        self.p, self.I, self.into, self.encoders = p, I, into, encoders
        self.values = 0
        self.memo = {}
        #: texts that are known not to contain a quote
        self.free = set()
        self.closures = {}

    def step(self, s, c):
        for ch in s:
            if c == "text":
                if ch == "<":
                    c = "tag"
            elif c == "tag":
                if ch in "\"'":
                    c = ch
                elif ch == ">":
                    c = "text"
                elif ch == "<":
                    raise Bad("a tag starts inside a tag (in %r)" % s)
            elif ch == c:
                c = "tag"
        return c

    def read(self, t, c):
        """The state after t, which starts in state c."""
        k = (t, c)
        if k in self.memo:
            return self.memo[k]
        if t.op == "phi":
            return self.phi(t, c)
        r = self.read1(t, c)
        self.memo[k] = r
        return r

    def phi(self, t, c):
        # The state after a loop is the state before it.
        ins = [x for x in self.I.phi_inputs(t)]
        out = None
        loop = []
        for x in ins:
            if any(y is t for y in self.I.deepterms(x)) if x.op != "phi" else False:
                loop.append(x)
                continue
            r = self.read(x, c)
            if out is not None and r != out:
                raise Bad("it depends on the path whether %s leaves a tag open" % show(t))
            out = r
        if out is None:
            raise Bad("cannot follow %s" % show(t))
        self.memo[(t, c)] = out
        for x in loop:
            if self.read(x, c) != out:
                raise Bad("each pass of a loop leaves a tag open (%s)" % show(x))
        return out

    def read1(self, t, c):
        s = text(t)
        if s is not None:
            return self.step(s, c)
        if t.op == "fmt":
            for x in t.a[0]:
                c = self.read(x, c)
            return c
        if t.op == "mut" and t.a[1] == 0 and last(t) in APPEND:
            c = self.read(t.a[2][0], c)
            for x in t.a[2][1:]:
                c = self.read(x, c)
            return c
        if t.op == "call" and last(t) in ("add",) and len(t.a[1]) == 2:
            return self.read(t.a[1][1], self.read(t.a[1][0], c))
        if t.op == "call" and last(t) in EMPTY:
            return c
        if t.op == "call" and last(t) in ("join", "concat"):
            for x in self.elements(t.a[1][0]) + list(t.a[1][1:]):
                if self.read(x, c) != c:
                    raise Bad("an element of %s leaves a tag or a quote open" % show(t))
            return c
        if c == "text":
            return c
        if c == "tag":
            raise Bad("%s stands in a tag, outside of quotes" % show(t))
        self.values += 1
        if not self.safe(t, c, set()):
            raise Bad("%s stands between quotes, but its quotes are not encoded" % show(t))
        return c

    def elements(self, v):
        """What a list is made of."""
        out = []
        seen = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo.extend(self.I.phi_inputs(x))
            elif x.op in ("array",):
                out.extend(x.a[0])
            elif x.op == "mut" and last(x) in ("push", "insert", "push_back"):
                todo.append(x.a[2][0])
                out.append(x.a[2][-1])
            elif x.op == "mut" and last(x) in ("append", "extend", "extend_from_slice"):
                todo.extend(x.a[2])
            elif x.op == "call" and last(x) in EMPTY:
                pass
            elif x.op == "call" and last(x) in ("map", "flat_map", "filter_map") and len(x.a[1]) == 2:
                out.append(x)
            elif x.op == "call" and last(x) in ("filter", "skip", "take", "rev", "skip_while", "take_while", "chain"):
                todo.extend(y for y in x.a[1] if y.op != "clo")
            elif x.op == "call" and x.a[1] and last(x) in (
                    "into_vec", "box_assume_init_into_vec_unsafe", "to_vec", "from", "from_iter", "collect", "iter", "into_iter",
                    "clone", "as_slice", "deref", "unsize"):
                todo.append(x.a[1][0])
            elif x.op == "cast":
                todo.append(x.a[0])
            elif x.op == "agg" and x.a[0] == OPTION:
                out.extend(x.a[3])      # Some(x): x; None: nothing
            else:
                out.append(T("element", x))
        return out

    def safe(self, t, q, seen):
        """Whether the quote q cannot occur in t."""
        if t in seen:
            return True
        seen.add(t)
        s = text(t)
        if s is not None:
            return q not in s
        if (t, q) in self.free:
            return True
        if t.op == "phi":
            return all(self.safe(x, q, seen) for x in self.I.phi_inputs(t))
        if t.op == "fmt":
            return all(self.safe(x, q, seen) for x in t.a[0])
        if t.op == "without":
            return q in t.a[1]
        if t.op in ("tuple", "array"):
            return all(self.safe(x, q, seen) for x in t.a[0])
        if t.op == "mut" and t.a[1] == 0 and (last(t) in APPEND or last(t) in ("insert", "insert_str", "append", "extend_from_slice")):
            return all(self.safe(x, q, seen) or x.op == "const" and not isinstance(x.a[1], str) for x in t.a[2])
        if t.op == "mut" and t.a[1] == 0 and last(t) in ("pop", "truncate", "clear", "remove", "retain", "drain"):
            return self.safe(t.a[2][0], q, seen)
        if t.op == "element":
            return self.safe(t.a[0], q, seen)
        if t.op == "bin" or t.op == "un" and t.a[0] == "len":
            return True
        if t.op == "agg" and t.a[3]:
            return all(self.safe(x, q, seen) for x in t.a[3])
        if t.op == "agg":
            return True
        if t.op == "call":
            nm = last(t)
            if nm == "replace" and len(t.a[1]) == 3:
                if not self.safe(t.a[1][2], q, seen):
                    return False
                return quote(t.a[1][1]) == q or self.safe(t.a[1][0], q, seen)
            if t.a[0] in self.encoders:
                return q in self.encoders[t.a[0]]
            if nm in NUMBERS or nm in EMPTY:
                return True
            if nm in ("map", "flat_map", "filter_map") and len(t.a[1]) == 2:
                return self.mapped(t.a[1][0], t.a[1][1], q)
            if nm in ("collect", "from_iter"):
                return all(self.safe(x, q, seen) for x in self.elements(t.a[1][0]))
            if nm in ("join", "concat", "add"):
                return all(self.safe(x, q, seen) for x in self.elements(t.a[1][0]) + list(t.a[1][1:]))
            if nm in PARTS and t.a[1]:
                return self.safe(t.a[1][0], q, seen)
            if nm in ("unwrap_or",):
                return all(self.safe(x, q, seen) for x in t.a[1])
        return False


    def mapped(self, src, clo, q):
        """Whether what a closure makes of each element is safe."""
        fn = self.p.fns.get(clo.a[0]) if clo.op in ("clo", "fn") else None
        if fn is None:
            return False
        if fn.path in self.encoders:
            return q in self.encoders[fn.path]
        if (fn.path, q) not in self.closures:
            self.closures[fn.path, q] = False
            self.closures[fn.path, q] = encodes(self.p, fn, self.into, self.encoders, q)
        return self.closures[fn.path, q]


def encodes(p, fn, into, encoders, q):
    """Whether nothing that a function returns can contain the quote q."""
    I = Interp(p, C(p, into, encoders))
    exits = I.run(fn)
    for st, v in exits:
        r = Reader(p, I, into, encoders)
        for t, x in st.facts.items():
            if searched(t) == q and (x is False or x == frozenset(["None"])):
                r.free.add((t.a[1][0], q))
            if t.op in ("bin", "call") and x is False and t.a[0] in ("Eq", "eq"):
                xs = t.a[1:] if t.op == "bin" else t.a[1]
                if any(quote(y) == q for y in xs):
                    r.free |= {(y, q) for y in xs}
        for y in [y for y in subterms(v)]:
            if y.op not in ("const", "fn") and I.client.isnot(I, st, y, q):
                r.free.add((y, q))
        if not r.safe(v, q, set()):
            return False
    return bool(exits)


def find_encoders(p, into):
    """Functions from texts to texts that return no quotes, whatever they get."""
    out = {}
    todo = [fn for fn in p.fns.values() if into(fn) and "{" not in fn.path and fn.argc and textual(fn.locals[0]) and all(
        textual(l) for l in fn.locals[1:fn.argc + 1])]
    changed = True
    while changed:
        changed = False
        for fn in todo:
            for q in "\"'":
                if q not in out.get(fn.path, ()) and encodes(p, fn, into, out, q):
                    out.setdefault(fn.path, set()).add(q)
                    changed = True
    return out


def textual(ty):
    return bool(re.search(r"\b(str|String|CowStr|char)\b", ty.s)) and not (ty.k == "ref" and ty.mut)


def writers(p, renderer):
    for fn in p.fns.values():
        if fn.self_adt == renderer and fn.trait and p.last(fn.trait) == "InlineSubstitutionRenderer" and "{" not in fn.path.split("::")[-1]:
            if any(l.k == "ref" and l.mut and "String" in l.s for l in fn.locals[1:fn.argc + 1]):
                yield fn


def check(p, rep):
    renderer = p.adt("HtmlSubstitutionRenderer")
    trait = [f for f in p.fns.values() if f.self_adt == renderer and f.trait and p.last(f.trait) == "InlineSubstitutionRenderer"]
    if not trait:
        raise FactsError("the built-in renderer does not implement the renderer trait")
    homes = {f.raw["span"]["f"] for f in trait}

    def into(fn):
        return fn.raw["span"]["f"] in homes and "InlineSubstitutionRenderer" not in (fn.trait or "")

    encoders = find_encoders(p, into)
    n = 0
    for fn in sorted(writers(p, renderer), key=lambda f: f.path):
        key = fn.name
        rep.ob(key, loc(fn.raw["span"]))
        I = Interp(p, C(p, into, encoders))
        exits = I.run(fn)
        if not exits:
            rep.bad(key, fn.raw["span"], "%s does not return" % fn.name)
        for i in range(1, fn.argc + 1):
            ty = fn.locals[i]
            if not (ty.k == "ref" and ty.mut and "String" in ty.s):
                continue
            for st, _ in exits:
                r = Reader(p, I, into, encoders)
                out = I.deep(st, I.load(st, T("p", i), ()))
                try:
                    c = r.read(out, "text")
                    if c != "text":
                        rep.bad(key, fn.raw["span"], "the output of %s ends inside a tag" % fn.name)
                except Bad as e:
                    rep.bad(key, fn.raw["span"], "%s: %s" % (fn.name, e))
                n += r.values
    rep.count("functions that return no quotes", len(encoders))
    rep.floor("values between quotes", n, 1)
