"""Every function that inserts into the parser's table of attribute values is
found by the types of its accesses and interpreted path by path. A function
without the caller's restriction (an assignment by a document) stores, on
paths where the attribute exists, the restriction that the existing entry has,
and on paths where it does not exist, no restriction. A function that gets the
caller's restriction stores just that."""

from checks.attrs import *

TECH = "effect analysis of table accesses; path-sensitive abstract interpretation of MIR (provenance of the stored restriction)"
NOTE = "All functions with mutable access to the table of attribute values, on all paths."


def check(p, rep):
    A = Attrs(p)
    roots = A.roots()
    rep.floor("operations that assign attributes", len(roots), 1)
    i = [f["name"] for f in p.fields(A.val)].index("modification_context")
    n = 0
    for r in roots:
        fn = p.fns[r]
        short = p.last(r)
        key = "restriction/" + short
        api = A.is_api(fn)
        c, I, rets = analyse(A, r)
        if not c.writes:
            rep.bad(key, fn.span, "no write was found in " + r)
        for w in c.writes:
            rep.ob(key, loc(w.span))
            n += 1
            if w.op != "insert":
                rep.bad(key, w.span, "%s changes the table of attributes by %s" % (r, w.op))
                continue
            for x in I.phi_inputs(w.val):
                if x.op != "agg" or x.a[0] != A.val:
                    rep.bad(key, w.span, "%s stores %s, of unknown restriction" % (r, show(x)))
                    continue
                for m in I.phi_inputs(x.a[3][i]):
                    if api:
                        ok = m.op == "p" and fn.locals[m.a[0]].adt() == A.ctx
                        what = "the restriction it was given"
                    elif "Some" in w.present:
                        ok = m.op == "f" and m.a[2] == "modification_context" and any(
                            y.op == "call" and y.a[0] == "lookup" and same(I, y, w)
                            for y in I.deepterms(m))
                        what = "the restriction that the attribute has"
                    else:
                        ok = m.op == "agg" and m.a[1] == "Anywhere"
                        what = "no restriction, for an attribute that is new"
                    if not ok:
                        rep.bad(key, w.span, "%s stores %s as restriction, not %s" % (r, show(m), what))
    rep.floor("writes of attributes", n, 1)


def same(I, y, w):
    return set(map(str, I.idents(y.a[1][1]))) == set(map(str, I.idents(w.key)))
