"""Visibility and effect query over the public API: no function that a user of
the crate can call takes a part of a parsed document by mutable reference or
returns a mutable reference to one, and no such type implements a trait that
hands out mutable access. Parts of a document are the types reachable through
the fields of Document."""

from checks.common import *

TECH = "query over signatures of all externally reachable functions and trait impls"
NOTE = ("Exhaustive over the externally visible functions rustc reports and over all trait impls. Together with C26 (no "
        "interior mutability) and C27 (no unsafe code) a document reached through a shared reference cannot change.")

MUT_TRAITS = {"DerefMut", "IndexMut", "AsMut", "BorrowMut"}


def check(p, rep):
    model = model_types(p)
    rep.floor("types of the document model", len(model), 25)
    n = 0
    for fn in p.fns.values():
        if fn.kind != "fn":
            continue
        visible = fn.reachable or (fn.trait is not None and p.last(fn.trait) not in ("Drop",))
        if not visible or fn.raw["span"].get("m"):
            continue
        n += 1
        rep.ob("signature/" + fn.path, loc(fn.raw["span"]))
        for i, ty in enumerate(fn.locals[1:fn.argc + 1]):
            m = mut_of(p, ty, model)
            if m:
                if fn.trait and not fn.trait.startswith("crate::") and p.last(fn.trait) not in MUT_TRAITS:
                    continue
                if fn.trait and not fn.reachable and fn.trait.startswith("crate::"):
                    continue
                rep.bad("signature/" + fn.path, fn.raw["span"], "%s takes %s by mutable reference" % (fn.path, m))
        m = mut_of(p, fn.locals[0], model)
        if m:
            rep.bad("signature/" + fn.path, fn.raw["span"], "%s returns a mutable reference to %s" % (fn.path, m))
    rep.floor("externally visible functions", n, 200)
    for im in p.impls:
        if im["_trait"] and p.last(im["_trait"]) in MUT_TRAITS:
            a = im["_self"].adt()
            rep.ob("impl/%s/%s" % (im["_trait"], a))
            if a in model:
                rep.bad("impl/%s/%s" % (im["_trait"], a), im.get("span", "-"), "%s gives mutable access to a %s" % (im["_trait"], a))


def mut_of(p, ty, model):
    """A model type that `ty` gives mutable access to."""
    for x in ty.walk():
        if x.k == "ref" and x.mut:
            for y in x.inner.walk():
                if y.k == "adt" and y.d in model:
                    return y.d
    return None
