"""Each function that runs patterns is interpreted over all paths. Where a path
leaves out a pattern that another path (with the same answers to all other
questions) runs, only its quick checks can be the reason: then every text the
pattern matches must contain one of the strings that these checks did not
find, which is decided on the automata of the pattern and the checks."""

from checks.common import *
from checks.c02 import Patterns, phis, RUN, TAKE, MAKE, short_pat, Row
from engine.interp import *
from engine.rx import Pattern, RxError, Node, literal, avoids

TECH = "path-sensitive dataflow + language inclusion between the patterns and the quick checks that guard them"
NOTE = ("All functions that run a pattern kept in a static, all paths, all texts (exact on automata; characters outside "
        "ASCII are represented by samples, position tests in patterns are taken to succeed). A check that is not a substring, "
        "pattern or length test of a text is not regarded as a quick check.")

MATCH = "regex::regex::string::Regex::is_match"
FIND = {"str::find", "str::rfind", "str::split_once"}


EDGE = {"str::starts_with": str.startswith, "str::ends_with": str.endswith}


def sniff(I, t):
    """Strings or patterns a negative test rules out: (node, description)."""
    if t.op != "call":
        return None
    if t.a[0] in ("str::contains",) or t.a[0] in FIND:
        lits = chars(I, t.a[1][1])
        if lits:
            return [(literal(s), repr(s)) for s in lits]
    if t.a[0] == MATCH:
        return t.a[1][0]
    return None


def chars(I, x):
    if x.op == "const" and isinstance(x.a[1], str):
        return [x.a[1]]
    if x.op == "const" and isinstance(x.a[1], int) and not isinstance(x.a[1], bool):
        return [chr(x.a[1])]
    if x.op in ("tuple", "array", "arr"):
        vs = x.a[0] if x.a and isinstance(x.a[0], tuple) else x.a
        out = []
        for y in vs:
            c = chars(I, y) if hasattr(y, "op") else None
            if not c:
                return None
            out += c
        return out
    if x.op == "agg" and not x.a[0]:
        out = []
        for y in x.a[3]:
            c = chars(I, y)
            if not c:
                return None
            out += c
        return out
    if x.op == "ref":
        return None
    return None


class Paths(Policy):
    """Follows the paths of one function until it is settled whether they run
    the patterns of one static."""
    max_depth = 6
    max_states = 128
    keep_answers = True

    def __init__(self, fn, target, before, texts=None):
        self.fn, self.target, self.before = fn, target, before
        self.ran, self.skipped = [], []
        #: where the text that the pattern is run on comes from (None: to be found)
        self.texts = texts
        self.found = set()
        self.memo = {}

    def test(self, I, t, v):
        """quick(), for tests of the text that the pattern is run on."""
        r = quick(I, t, v)
        if r is None:
            return None
        if isinstance(r, tuple):
            # (Handlers of a match tell constructs apart by such tests.)
            if any("Captures" in x.s for x in self.fn.locals[1:self.fn.argc + 1]):
                return None
            return r[1:] if self.sources(I, r[0]) & self.texts else None
        k = t.a[1][1 if t.a[0] == MATCH else 0]
        return r if self.sources(I, k) & self.texts else None

    def sources(self, I, t):
        k = t.id
        if k in self.memo:
            return self.memo[k]
        out = set()
        seen = set()
        todo = [t]
        while todo and len(seen) < 2000:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "call" and "Captures" in x.a[0] and len(x.a[1]) == 2:
                out.add(("group", x.a[1][1]))
            elif x.op == "p":
                ty = self.fn.locals[x.a[0]].s if x.a[0] < len(self.fn.locals) else ""
                if re.search(r"\b(str|String|Content|CowStr|Span|Passthroughs?)\b", ty):
                    out.add(("param", x.a[0]))
            elif x.op == "phi":
                todo.extend(I.phi_inputs(x))
            else:
                todo.extend(flat(x.a))
        if t.op != "phi":
            self.memo[k] = out
        return out

    def rest(self, I, st):
        return {t: x for t, x in st.facts.items() if self.test(I, t, x) is None}

    def entering(self, I, st, fr, bi):
        if st.ps == "open" and fr.depth == 0 and bi not in self.before:
            st.ps = "skip"
            if self.texts is not None:
                q = {t: self.test(I, t, x) for t, x in st.facts.items()}
                self.skipped.append(({t: x for t, x in q.items() if x is not None}, self.rest(I, st)))

    def touch(self, I, st, paths):
        if st.ps == "open" and self.target in paths:
            st.ps = "run"
            if self.texts is not None:
                self.ran.append(self.rest(I, st))

    def statement(self, I, st, fr, bi, s):
        self.touch(I, st, set(statics(s)))

    def call(self, I, st, c):
        self.touch(I, st, {x.a[0] for a in c.args for x in subterms(a) if x.op == "static"})
        if self.texts is None and (c.path in RUN or c.path in TAKE or (c.callee is not None and c.callee.local)) and any(
                x.op == "static" and x.a[0] == self.target for a in c.args for x in I.deepterms(a)):
            for a, ty in zip(c.args, c.types):
                if ty is not None and ty.peel().k == "str" or ty is not None and "String" in ty.s:
                    self.found |= self.sources(I, a)
        return None

    def flagkey(self, I, st, fr):
        if st.ps != "open" or self.texts is None:
            return ()
        return frozenset((t, v) for t, v in st.facts.items() if self.test(I, t, v) is not None)


def touches(p, fn, seen=None):
    """Statics that a function refers to, itself or through new helpers."""
    seen = set() if seen is None else seen
    out = {}
    for i, b in fn.live_blocks():
        for s in b["st"] + [b["t"]]:
            for x in statics(s):
                out.setdefault(x, set()).add(i)
    for i, t, c in fn.calls():
        g = p.fns.get(c.path) if c is not None else None
        if g is None or g.path in known_fns() or g.path in seen:
            continue
        seen.add(g.path)
        for x in touches(p, g, seen):
            out.setdefault(x, set()).add(i)
    return out


def reaching(fn, blocks):
    """Blocks from which one of `blocks` can be reached."""
    pred = {}
    for i in range(len(fn.blocks)):
        for j in fn.succ(i):
            pred.setdefault(j, []).append(i)
    out, todo = set(blocks), list(blocks)
    while todo:
        for i in pred.get(todo.pop(), ()):
            if i not in out:
                out.add(i)
                todo.append(i)
    return out


def statics(x):
    for k in consts(x):
        v = k.get("v")
        if isinstance(v, dict) and "static" in v:
            yield norm(v["static"])


def quick(I, t, v):
    """False for a test that found nothing, True for one that did, None for
    other facts; the text, and the bytes it has at most (None: any number),
    for tests of its length."""
    if t.op == "bin" and isinstance(v, bool):
        return length(t, v)
    if t.op == "call" and t.a[0].split("::")[-1] == "is_empty" and STR.search(t.a[0]) and isinstance(v, bool):
        return (t.a[1][0], 0 if v else None)
    if is_len(t) and isinstance(v, tuple):
        return (of(t), v[1] if v[0] == "int" else None)
    if t.op != "call":
        return None
    if t.a[0] == MATCH and isinstance(v, bool):
        return v
    if t.a[0] in EDGE and v is False and len(t.a[1]) == 2 and chars(I, t.a[1][1]):
        return (t.a[1][0], None, EDGE[t.a[0]], tuple(chars(I, t.a[1][1])))
    if len(t.a[1]) < 2 or not chars(I, t.a[1][1]):
        return None
    if t.a[0] == "str::contains" and isinstance(v, bool):
        return v
    if t.a[0] in FIND and isinstance(v, frozenset) and len(v) == 1:
        return "Some" in v
    return None


STR = re.compile(r"(^|::)(str|String)::\w+$")
#: whether the comparison of a length with a number bounds the length: what is
#: added to the number then
BELOW = {("Lt", True): -1, ("Le", True): 0, ("Gt", False): 0, ("Ge", False): -1, ("Eq", True): 0, ("Ne", False): 0}
TURN = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}


#: what a text is got from another one by, unchanged
SAME = {"rendered", "to_string", "to_owned", "as_str", "as_ref", "deref", "data", "into", "from", "clone", "as_mut", "borrow", "index"}


def is_len(t):
    if t.op == "un" and t.a[0] == "len":
        return of(t).op != "call" or of(t).a[0].split("::")[-1] in SAME
    return t.op == "call" and t.a[0].split("::")[-1] == "len" and STR.search(t.a[0]) is not None


def of(t):
    """The text whose length `t` is."""
    return t.a[1] if t.op == "un" else t.a[1][0]


def length(t, v):
    op, a, b = t.a[0], t.a[1], t.a[2]
    if is_len(b):
        op, a, b = TURN.get(op, op), b, a
    if not is_len(a) or b.op != "const" or not isinstance(b.a[1], int) or op not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        return None
    n = BELOW.get((op, v))
    return (of(a), None if n is None else b.a[1] + n)


def conflict(a, b):
    for t, v in a.items():
        w = b.get(t)
        if w is None or v == w:
            continue
        if isinstance(v, bool) and isinstance(w, bool):
            return True
        if isinstance(v, frozenset) and isinstance(w, frozenset) and not (v & w):
            return True
        if isinstance(v, tuple) and isinstance(w, tuple):
            if v[0] == w[0] == "int":
                return True
            if v[0] == "int" and w[0] == "notint" and v[1] in w[1] or w[0] == "int" and v[0] == "notint" and w[1] in v[1]:
                return True
    return False


def check(p, rep):
    pats = Patterns(p, rep)
    pats.tables()
    # Statics whose patterns are run for their matches: reached by a run call,
    # directly or through a table.
    run = {}
    for path in {norm(s["path"]) for s in p.raw["statics"]} if "statics" in p.raw else set():
        fn = p.fns.get(path + "::{closure#0}")
        if fn is None:
            continue
        texts = set(pats.static(path))
        if not texts:
            # A table: all patterns made while it is initialised.
            class Made(Policy):
                def call(self, I, st, c):
                    if c.path in MAKE and c.args[0].op == "const":
                        texts.add(c.args[0].a[1])
                    return None

            Interp(p, Made()).run(fn)
        if texts:
            run[path] = texts
    # Those that are only tested for a match are quick checks themselves.
    only_tested = sniffers(p)
    run = {k: v for k, v in run.items() if k not in only_tested}
    n = npairs = 0
    for fn in p.fns.values():
        if fn.path.endswith("::{closure#0}") and fn.path[:-len("::{closure#0}")] in run:
            continue
        if fn.path in known_fns() or "{closure" in fn.path:
            mine = {s: b for s, b in touches(p, fn).items() if s in run}
        else:
            continue    # an extracted helper is analysed where it is called
        if mine:
            n += 1
        for s in sorted(mine):
            if any(i in reaching(fn, fn.succ(i)) and set(fn.succ(i)) & reaching(fn, [i]) for i in mine[s]):
                # Run again and again, on texts that checks made earlier are not about.
                continue
            first = Paths(fn, s, reaching(fn, mine[s]))
            Interp(p, first).run(fn, ps="open")
            if not first.found:
                continue
            cl = Paths(fn, s, first.before, first.found)
            I = Interp(p, cl)
            I.run(fn, ps="open")
            for q, rest in cl.skipped:
                if not q or not any(not conflict(rest, r) for r in cl.ran):
                    continue
                absent = []
                names = []
                most = min([v[0] for v in q.values() if isinstance(v, tuple) and v[0] is not None], default=None)
                for t, v in q.items():
                    if v is False:
                        x = sniff(I, t)
                        if isinstance(x, list):
                            absent += [y[0] for y in x]
                            names += [y[1] for y in x]
                        elif x is not None:
                            r = pats.resolve(I, x, fn.span)
                            for pat, _, _ in r or []:
                                absent.append(pat.node)
                                names.append(pat.text)
                npairs += 1
                for text in sorted(run[s]):
                    pat = pats.get(text, fn.span)
                    if pat is None:
                        continue
                    w = cached(pat, absent, names)
                    edges = [v[1:] for v in q.values() if isinstance(v, tuple) and len(v) == 3]
                    if w is not None and any(e(w, x) for e, xs in edges for x in xs):
                        w = inside(pat, absent, edges)
                    if w is not None and most is not None and len(w.encode()) > most:
                        w = None
                    rep.ob("skip/%s/%s/%s/%s" % (fn.path, s, text[:30], "|".join(sorted(names))), "")
                    if w is not None:
                        rep.bad("skip/%s/%s" % (fn.path, p.last(s)), fn.span,
                                "a text without %s is not searched for %s, but the pattern %r matches %r" % (
                                    " or ".join(sorted(set(names)) + (["more than %d bytes" % most] if most is not None else [])) or "(nothing tested)", p.last(s), short_pat(Row(pat)), w))
    rep.count("functions that run patterns", n)
    rep.count("skipping paths compared", npairs)
    rep.floor("patterns", sum(len(v) for v in run.values()), 1)


_cache = {}


def cached(pat, absent, names):
    k = (pat.text, tuple(sorted(set(names))))
    if k not in _cache:
        _cache[k] = avoids(pat.node, absent)
    return _cache[k]


def inside(pat, absent, edges):
    """A text with a match that is not at its edges, none of `absent`, and
    none of the beginnings and ends of `edges`."""
    bare = re.sub(r"\\.|\[[^\]]*\]", "", pat.text)
    if "^" in bare or "$" in bare or re.search(r"\\[Az]", pat.text):
        return None     # it may match at the edges only
    w = avoids(Node("cat", [literal("("), pat.node, literal(")")]), absent)
    return None if w is None or any(e(w, x) for e, xs in edges for x in xs) else w


def sniffers(p):
    """Statics that are used in is_match only."""
    how = {}

    class C(Policy):
        def call(self, I, st, c):
            for i, a in enumerate(c.args):
                for x in phis(I, a):
                    if x.op == "static":
                        how.setdefault(x.a[0], set()).add(c.path == MATCH and i == 0)
            return None

    for fn in p.fns.values():
        if any(True for _, b in fn.live_blocks() for s in b["st"] + [b["t"]] for _ in statics(s)):
            Interp(p, C()).run(fn)
    # Dereferencing the lazy value is not a use.
    return {s for s, v in how.items() if True in v and len(v - {None}) == 1}
