"""For every method M of the block traits and every kind of block V: with the
generic block known to be of kind V, every value M can return is the result of
calling M on the wrapped block (MIR path analysis, one run per kind). A trait
method with a default body that some wrapped block overrides must be
dispatched as well."""

from engine.interp import Client, Interp, T, show
from checks.common import *

TECH = "path-sensitive abstract interpretation of MIR, one run per query and kind"
NOTE = ("Every query of IsBlock and HasSpan for every kind of block. What the wrapped block answers is not judged here. "
        "Known finding: id of a section.")

TRAITS = ["IsBlock", "HasSpan"]


class C(Client):
    def __init__(self, methods):
        self.methods = methods

    def enter(self, I, ctx, fn, depth):
        return fn.name not in self.methods


def impl_for(p, adt, name, trait):
    """The method that a type uses: its own or the trait's default."""
    for fn in p.by_name.get(name, []):
        if fn.trait and p.last(fn.trait) == trait and fn.self_adt == adt:
            return fn
    for fn in p.by_name.get(name, []):
        if fn.in_trait and p.last(fn.in_trait) == trait:
            return fn
    return None


def check(p, rep):
    block = p.adt("Block")
    kinds = p.variants(block)
    payload = {}
    for v in p.adts[block]["variants"]:
        payload[v["name"]] = p.types[v["fields"][0]["ty"]].adt() if v["fields"] else None
    rep.floor("kinds of block", len(kinds), 8)

    overridden = {}
    for tr in TRAITS:
        for im in p.trait_impls(tr):
            for it in im["items"]:
                overridden.setdefault((tr, it["name"]), set()).add(im["_self"].adt())

    n = 0
    for (tr, name), who in sorted(overridden.items()):
        others = [k for k in kinds if payload[k] in who]
        if block not in who:
            for k in others:
                fn = p.method(p.last(payload[k]), name, tr)
                rep.bad("%s/%s" % (name, k), fn.raw["span"],
                        "%s overrides %s::%s but the generic block does not dispatch it" % (payload[k], tr, name))
            continue
        fn = p.method("Block", name, tr)
        client = C({name})
        for k in kinds:
            n += 1
            key = "%s/%s" % (name, k)
            rep.ob(key, loc(fn.raw["span"]))
            I = Interp(p, client)
            selfp = T("p", 1)
            exits = I.run(fn, facts={selfp: frozenset([k])})
            if not exits:
                rep.bad(key, fn.raw["span"], "Block::%s does not return for kind %s" % (name, k))
            own = [None]

            def wrapped_values():
                """What the wrapped block's own method can return."""
                if own[0] is None:
                    own[0] = set()
                    f2 = impl_for(p, payload[k], name, tr)
                    if f2 is not None:
                        J = Interp(p, C(set()))
                        pay = T("f", selfp, k, "0")
                        for s2, w in J.run(f2, args=[pay] + [T("p", i + 2) for i in range(f2.argc - 1)]):
                            own[0] |= J.phi_inputs(w)
                return own[0]

            for st, v in exits:
                for x in I.phi_inputs(v):
                    ok = (x.op == "call" and x.a[0].split("::")[-1] == name
                          and len(x.a[1]) >= 1
                          and x.a[1][0] is T("f", selfp, k, "0")
                          and all(a is T("p", i + 2) for i, a in enumerate(x.a[1][1:])))
                    # The method has to be the one of the trait, for the
                    # wrapped type or its default.
                    if ok:
                        f2 = p.fns.get(x.a[0])
                        ok = f2 is not None and (
                            (f2.trait and p.last(f2.trait) == tr and f2.self_adt == payload[k])
                            or (f2.in_trait and p.last(f2.in_trait) == tr))
                    # Or it is, by its definition, the one value that the
                    # wrapped block's method returns.
                    if not ok:
                        ok = wrapped_values() == {x}
                    if not ok:
                        rep.bad(key, fn.raw["span"],
                                "for kind %s, Block::%s returns %s instead of what the wrapped block returns" % (k, name, show(x)))
    rep.floor("dispatched queries", n, 8)
