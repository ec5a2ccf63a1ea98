"""Which groups of a pattern can take part in a match together is computed from
the pattern itself. Every body that handles a match is interpreted with the
set of these combinations that agree with the tests taken so far; a group that
is read without a test must be in all of them. The patterns of a match come
from the calls that run them, with the fields of the handler that are set from
the same table row as the pattern."""

from checks.common import *
from engine.interp import *
from engine.interp import OPTION, NONE
from engine.rx import Pattern, RxError

TECH = "group-participation sets of the patterns x path-sensitive dataflow over the match handlers"
NOTE = ("All match handlers, all groups, all paths (loops to a fixpoint). Over-approximates the combinations of groups "
        "(character classes are not compared). Trusts the regex crate to implement its documented syntax.")

CAP = "regex::regex::string::Captures"
RUN = {"regex::regex::string::Regex::replace_all": 2, "regex::regex::string::Regex::replace": 2,
       "regex::regex::string::Regex::replacen": 3}
TAKE = {"regex::regex::string::Regex::captures", "regex::regex::string::Regex::captures_at",
        "regex::regex::string::Regex::captures_iter"}
UNWRAP = {"core::option::Option::<T>::unwrap", "core::option::Option::<T>::expect", "core::option::Option::<T>::unwrap_unchecked"}
MAKE = {"regex::regex::string::Regex::new", "regex::builders::string::RegexBuilder::new"}


class Row:
    """One pattern a handler is run with, and what its fields hold then."""
    __slots__ = ("pat", "fields")

    def __init__(self, pat, fields=()):
        self.pat, self.fields = pat, dict(fields)


def is_get(c):
    return c.callee is not None and c.callee.name in ("get", "name") and c.path.startswith(CAP)


def is_index(c):
    return c.callee is not None and c.callee.name == "index" and CAP in c.path


def handles(p, fn):
    for i, t, c in fn.calls():
        if c is not None and (CAP in c.path):
            return True
    return False


class Patterns:
    """Patterns of regex-valued terms."""

    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.cache = {}
        self.rows = {}        # field name -> [(agg/tuple term)]
        self.init = {}        # static -> value terms

    def get(self, text, span):
        if text not in self.cache:
            try:
                self.cache[text] = Pattern(text)
            except (RxError, ValueError, IndexError) as e:
                self.rep.bad("pattern/%s" % text[:40], span, "the pattern cannot be read: %s" % e)
                self.cache[text] = None
        return self.cache[text]

    def tables(self):
        """Records every structure and tuple that holds a pattern."""
        p, me = self.p, self

        class C(Policy):
            max_depth = 4

            def aggregate(self, I, st, fr, bi, span, term):
                term = I.deep(st, term)
                if term.op in ("agg", "tuple"):
                    names = term.a[2] if term.op == "agg" else tuple(str(i) for i in range(len(flat_vals(term))))
                    vals = flat_vals(term)
                    for n, v in zip(names, vals):
                        if me.direct(I, v) and term not in me.rows.setdefault(n, []):
                            me.rows[n].append(term)

        for fn in p.fns.values():
            if any(c is not None and c.path in MAKE for _, _, c in fn.calls()):
                Interp(p, C()).run(fn)

    def direct(self, I, v):
        """Pattern texts of a value made by Regex::new in the same body."""
        out = set()
        for t in phis(I, v):
            for x in subterms(t):
                if x.op == "call" and x.a[0] in MAKE and x.a[1] and x.a[1][0].op == "const" and isinstance(x.a[1][0].a[1], str):
                    out.add(x.a[1][0].a[1])
                if x.op in ("agg", "tuple", "clo") and x is t:
                    return set()
        return out

    def static(self, path):
        if path not in self.init:
            texts = set()
            fn = self.p.fns.get(path + "::{closure#0}")
            me = self

            class C(Policy):
                max_depth = 4

            if fn is not None:
                I = Interp(self.p, C())
                for st, v in I.run(fn):
                    texts |= me.direct(I, I.deep(st, v))
            self.init[path] = texts
        return self.init[path]

    def resolve(self, I, t, span, d=0):
        """Rows (pattern, base term of the table row or None); None when the
        term is a parameter."""
        out = []
        for x in phis(I, t):
            if x.op == "static":
                ts = self.static(x.a[0])
                if not ts:
                    return None
                out += [(self.get(s, span), None, None) for s in ts]
                continue
            ts = self.direct(I, x)
            if ts:
                out += [(self.get(s, span), None, None) for s in ts]
                continue
            if x.op == "f" and x.a[2] in self.rows:
                for row in self.rows[x.a[2]]:
                    for s in self.direct(I, field_of(row, x.a[2])):
                        out.append((self.get(s, span), x.a[0], row))
                continue
            return None
        return [r for r in out if r[0] is not None]


def flat_vals(t):
    return t.a[3] if t.op == "agg" else (t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a)


def field_of(row, n):
    names = row.a[2] if row.op == "agg" else [str(i) for i in range(len(flat_vals(row)))]
    return dict(zip(names, flat_vals(row))).get(n)


def phis(I, t):
    return I.phi_inputs(t) if t.op == "phi" else [t]


class Calls(Policy):
    """Finds the calls that run patterns, and the handlers they hand them to."""
    max_depth = 6

    def __init__(self, pats, out):
        self.pats, self.out = pats, out

    def call(self, I, st, c):
        r = None
        if c.path in RUN:
            r = (c.args[0], RUN[c.path])
        elif c.callee is not None and c.callee.local and c.types and any(x is not None and x.k == "adt" and "LookaheadReplacer" in trait_of(I.prog, x) for x in c.types):
            for n, x in enumerate(c.types):
                if x is not None and x.k == "adt" and "LookaheadReplacer" in trait_of(I.prog, x):
                    rx = [k for k, y in enumerate(c.types) if y is not None and "regex::string::Regex" in y.s]
                    if rx:
                        r = (c.args[rx[0]], n)
        if r is None:
            return None
        rx, n = r
        h = c.args[n]
        ty = c.types[n]
        ty = ty.peel() if ty is not None else None
        key = None
        for x in phis(I, h):
            if x.op == "clo":
                key = x.a[0]
            elif x.op == "agg" and x.a[0] in I.prog.adts and I.prog.adts[x.a[0]]["local"]:
                key = x.a[0]
        if key is None and ty is not None and ty.k == "adt" and ty.d in I.prog.adts and I.prog.adts[ty.d]["local"]:
            key = ty.d
        if key is None:
            return None
        rows = self.pats.resolve(I, rx, c.span)
        ent = self.out.setdefault(key, {})
        site = (c.fr.fn.path, c.bi)
        ent.setdefault(site, [c.span, []])
        if rows is None:
            return None
        for pat, base, row in rows:
            fields = {}
            for hv in phis(I, h):
                if hv.op != "agg":
                    continue
                for f, v in zip(hv.a[2], hv.a[3]):
                    if row is not None and v.op == "f" and v.a[0] is base:
                        v = field_of(row, v.a[2]) or v
                    fields.setdefault(f, set()).update(
                        {y.a[1] for y in phis(I, v) if y.op == "agg"} if all(y.op == "agg" for y in phis(I, v)) else {None})
            ent[site][1].append(Row(pat, fields))
        return None


_tr = {}


def trait_of(p, ty):
    k = id(p), ty.d
    if k not in _tr:
        _tr[k] = " ".join(f.path for f in p.fns.values() if f.self_adt == ty.d and " as " in f.path)
    return _tr[k]


class Reads(Policy):
    max_depth = 8

    def __init__(self, p, pats, rows, sites, bad, root):
        self.p, self.pats, self.rows, self.sites, self.bad, self.root = p, pats, rows, sites, bad, root
        self.max_states = 256 if rows else 64

    def enter(self, I, ctx, fn, depth):
        if any(t is not None and CAP in t.s for t in ctx.types):
            return True
        return fn.path not in known_fns()

    def patterns(self, I, st, caps, span):
        """Rows of a match that agree with what is known; None: unknown."""
        out = []
        for x in phis(I, caps):
            while x.op == "f" and x.a[2] in ("0", "1") and x.a[0].op in ("f", "call") or (x.op == "ref"):
                x = x.a[0]
            if x.op == "p":
                if self.rows is None or x is not self.root:
                    return None
                rows = self.rows
            elif x.op == "call" and x.a[0] in TAKE:
                r = self.pats.resolve(I, x.a[1][0], span)
                if r is None:
                    return None
                rows = [Row(pat) for pat, _, _ in r]
            else:
                return None
            out += rows
        return out

    def agree(self, I, st, caps, rows):
        """(row, groups that take part) that the tests so far allow."""
        known = {}
        fields = {}
        for t, vs in st.facts.items():
            if t.op == "call" and t.a[0] == "captures.get" and t.a[1][0] is caps and isinstance(vs, frozenset) and len(vs) == 1:
                known[cval(t.a[1][1])] = "Some" in vs
            elif t.op == "f" and isinstance(vs, frozenset) and t.a[0].op == "p" and t.a[0].a[0] == 1:
                fields[t.a[2]] = vs
        for r in rows:
            if any(f in r.fields and None not in r.fields[f] and not (r.fields[f] & vs) for f, vs in fields.items()):
                continue
            for v in r.pat.vectors:
                if all((group(r, j) in v) is k for j, k in known.items() if j is not None):
                    yield r, v

    def branch(self, I, st, fr, bi, term, value):
        for t in ([term] if term.op != "phi" else []):
            caps = None
            if t.op == "call" and t.a[0] == "captures.get":
                caps = t.a[1][0]
            elif t.op == "f" and self.rows is not None and self.root is not None:
                caps = self.root
            if caps is None:
                continue
            rows = self.patterns(I, st, caps, None)
            if rows and not any(True for _ in self.agree(I, st, caps, rows)):
                raise Infeasible()

    def flagkey(self, I, st, fr):
        return frozenset((t, vs) for t, vs in st.facts.items()
                         if t.op == "call" and t.a[0] == "captures.get" and isinstance(vs, frozenset))

    def read(self, I, st, c, caps, j, what):
        key = (c.fr.fn.path, c.bi)
        if j == 0:
            # The whole match.
            self.sites.setdefault(key, [c.span, 1, True])
            return
        rows = self.patterns(I, st, caps, c.span)
        if rows is None or j is None:
            return
        s = self.sites.setdefault(key, [c.span, 0, False])
        for r, v in self.agree(I, st, caps, rows):
            s[1] += 1
            g = group(r, j)
            if g is not None and g < r.pat.count:
                s[2] = True
            elif what == "read":
                self.bad.setdefault((c.fr.fn.path, "missing/%s" % j), (c.span, "group %s is read, but the pattern %r has no such group" % (j, short_pat(r))))
            if g is not None and g < r.pat.count and g not in v and what == "read":
                self.bad.setdefault((c.fr.fn.path, "absent/%s" % j), (
                    c.span, "group %s is read without a test, but a match of %r can leave it out (groups taking part: %s)" % (
                        j, short_pat(r), ", ".join(str(x) for x in sorted(v)))))

    def call(self, I, st, c):
        if is_get(c):
            for x in phis(I, c.args[1]):
                self.read(I, st, c, c.args[0], cval(x), "test")
            if cval(c.args[1]) == 0:
                return None
            return [(st, T("call", "captures.get", (c.args[0], c.args[1]), ()))]
        if is_index(c):
            for x in phis(I, c.args[1]):
                self.read(I, st, c, c.args[0], cval(x), "read")
            return [(st, T("call", "captures.index", (c.args[0], c.args[1]), ()))]
        if c.path in UNWRAP:
            for x in phis(I, c.args[0]):
                if x.op == "call" and x.a[0] == "captures.get":
                    self.read(I, st, c, x.a[1][0], cval(x.a[1][1]), "read")
        return None


def group(r, j):
    return r.pat.names.get(j) if isinstance(j, str) else j


def short_pat(r):
    s = " ".join(r.pat.text.split())
    return s if len(s) < 60 else s[:57] + "..."


def check(p, rep):
    pats = Patterns(p, rep)
    pats.tables()
    runs = {}
    cl = Calls(pats, runs)
    for fn in p.fns.values():
        if runs_patterns(p, fn):
            Interp(p, cl).run(fn)
    sites, bad = {}, {}
    want = {}
    roots = []
    for fn in p.fns.values():
        caps = [i for i in range(1, fn.raw["argc"] + 1) if CAP in fn.locals[i].s]
        if handles(p, fn):
            for i, t, c in fn.calls():
                if c is not None and CAP in c.path and c.name in ("index", "get", "name"):
                    want[(fn.path, i)] = (t["s"], c.name)
        rows = root = None
        key = None
        if caps and "replace_append" in fn.path.split("::")[-1]:
            key = fn.self_adt
        elif caps and "{closure" in fn.path and fn.path in runs:
            key = fn.path
        if key is not None:
            if key not in runs:
                rep.bad("handler/" + fn.path, fn.span, "no call hands this match handler to a pattern that can be read from the code")
                continue
            rows = [r for _, rs in runs[key].values() for r in rs]
            for s, (span, rs) in runs[key].items():
                rep.ob("run/%s/%s" % (key, s[0]), "%s: %d patterns" % (loc(span), len(rs)))
            root = T("p", caps[0])
        if key is None and not handles(p, fn) and not any(c is not None and c.path in TAKE for _, _, c in fn.calls()):
            continue
        roots.append((fn, rows, root))
    for fn, rows, root in roots:
        Interp(p, Reads(p, pats, rows, sites, bad, root)).run(fn)
    for k, (span, _) in sorted(want.items()):
        rep.ob("read/%s/%d" % k, "%s: %s" % (loc(span), "%d combinations" % sites[k][1] if k in sites else "not reached"))
        if k not in sites and want[k][1] == "index":
            rep.bad("undecided/%s" % k[0], span, "this read of a match could not be related to a pattern")
    for k, (span, n, ok) in sorted(sites.items()):
        if n and not ok:
            rep.bad("%s/no-such-group" % k[0], span, "no pattern that this match can come from has the group that is read")
    for (f, w), (span, msg) in sorted(bad.items()):
        rep.bad("%s/%s" % (f, w), span, msg)
    rep.count("patterns", len(pats.cache))
    rep.count("handlers and functions analysed", len(roots))
    rep.floor("reads of matched groups", len(want), 1)


def runs_patterns(p, fn, seen=()):
    """Itself, or through a new helper."""
    for _, _, c in fn.calls():
        if c is None:
            continue
        if c.path in RUN or any("Replacer" in t.s for t in fn.locals):
            return True
        g = p.fns.get(c.path)
        if g is not None and g.path not in known_fns() and g.path not in seen and g is not fn and runs_patterns(p, g, seen + (fn.path,)):
            return True
    return False


def locals_of(fn):
    return fn.locals[:]
