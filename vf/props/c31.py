"""Sharing promises made by hand. For every `unsafe impl Send/Sync` of the
workspace, each component of the type must itself keep the promise: by the
compiler's own auto-trait judgement of the component, or, where a trait object
hides it, because every implementor of that trait in the workspace (the trait is
closed: it is not implemented elsewhere) keeps it. No body gets around the
promise with a mutable static, a raw pointer access or a forged reference; and
what evaluation shares between threads is judged shareable by the compiler."""
from ..calls import Graph
from ..prog import Anchor

FORGE = ("mem::transmute", "intrinsics::transmute", "from_raw", "UnsafeCell", "ptr::read", "ptr::write", "SyncUnsafeCell",
         "ptr::const_ptr", "ptr::mut_ptr", "NonNull", "from_raw_parts", "MaybeUninit", "unchecked_ref", "unchecked_mut")
HOLD = ("alloc::boxed::Box", "alloc::vec::Vec", "core::option::Option", "alloc::collections::vec_deque::VecDeque",
        "bounded_vec_deque::BoundedVecDeque", "std::collections::hash::map::HashMap")


def run(ck):
    prog = ck.load("parse")
    rule = "a promise is kept by every component"
    auto = {}
    for c, f in prog.facts.items():
        if not c.startswith("spec_"):
            for a in f.get("auto", []):
                auto[a["id"]] = a
    n = 0
    for im in prog.impls:
        if im["crate"].startswith("spec_") or im.get("trait_name") not in ("Send", "Sync") or not im.get("unsafe") or im.get("neg"):
            continue
        n += 1
        tr = im["trait_name"].lower()
        bad = []
        if "fields" not in im:
            bad.append("not a type of which the components are known")
        for fl in im.get("fields", []):
            if fl["holds"]:
                continue
            why = keeps(prog, auto, tr, prog.ty(im["crate"], fl["t"]))
            if why:
                bad.append("its field %s: %s" % (fl["n"], why))
        ck.oblige(rule, "%s for %s" % (im["trait_name"], im["selfty"][1] if im["selfty"][0] == "adt" else im["selfty"]), not bad, "; ".join(bad), im["span"])
    ck.info["unsafe impls"] = n
    # what is shared or moved when a population is evaluated
    rule = "what evaluation shares may be shared"
    ck.floor(rule, 3)
    ev = [im for im in prog.impls if im.get("trait_name") == "Evaluation" and not im["crate"].startswith("spec_")]
    if not ev:
        raise Anchor("impl Evaluation")
    for im in ev:
        t = im["selfty"]
        why = keeps(prog, auto, "sync", t)
        ck.oblige(rule, "%s is shared" % show(t), not why, why or "", im["span"])
        for it in im["items"]:
            if it.get("ty") is not None:
                u = prog.ty(im["crate"], it["ty"])
                for tr in ("send", "sync"):
                    why = keeps(prog, auto, tr, u)
                    ck.oblige(rule, "%s is %s" % (show(u), tr), not why, why or "", im["span"])
    # implementors of the traits whose objects strategies hold
    g = Graph(prog)
    rule = "nothing is shared behind the compiler's back"
    ck.floor(rule, 100)
    for f in prog.fns.values():
        if f.crate.startswith("spec_") or f.crate == "juno_derive":
            continue
        bad = []
        if f.j.get("mutable"):
            bad.append("a mutable static")
        for b in f.blocks:
            if any(raw(f, p) for p in places([b.get("s"), b.get("t")])):
                bad.append("reads or writes through a raw pointer")
                break
        for s in g.sites[f.id]:
            if s.o.get("us") and any(x in s.name for x in FORGE):
                bad.append("calls " + s.name + " at " + s.span)
        ck.oblige(rule, f.path, not bad, "; ".join(bad), f.span)


def show(t):
    return t[1].split("::")[-1] if t[0] == "adt" else str(t)[:60]


def raw(f, p):
    return p[1] and p[1][0] == "*" and p[0] < len(f.locals) and f.locals[p[0]][0] == "ptr"


def places(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def keeps(prog, auto, tr, t, depth=0):
    """None when a type keeps the promise, or why it is not known to."""
    k = t[0]
    if k in ("bool", "char", "str", "never", "int", "uint", "float", "fnptr", "fndef"):
        return None
    if k in ("array", "slice"):
        return keeps(prog, auto, tr, t[1], depth + 1)
    if k == "tuple":
        for x in t[1]:
            w = keeps(prog, auto, tr, x, depth + 1)
            if w:
                return w
        return None
    if depth > 12:
        return "too deep"
    if k == "adt":
        if t[1] in auto:
            if auto[t[1]].get(tr):
                return None
            a = prog.adts[t[1]]
            for im in prog.impls:
                if im.get("trait_name", "").lower() == tr and im.get("unsafe") and im["selfty"] == t:
                    return None       # judged on its own
            for v in a["v"]:
                for f in v["f"]:
                    w = keeps(prog, auto, tr, prog.ty(a["crate"], f["t"]), depth + 1)
                    if w:
                        return "%s.%s: %s" % (show(t), f["n"], w)
            return None if any(v["f"] for v in a["v"]) else "%s is not %s" % (show(t), tr)
        if t[1] in HOLD or t[1] in ("alloc::string::String", "alloc::alloc::Global"):
            for x in t[2]:
                w = keeps(prog, auto, tr, x, depth + 1) if x[0] != "const" else None
                if w:
                    return w
            return None
        return "%s is not known to be %s" % (t[1], tr)
    if k == "dyn":
        trait = dyn_trait(t)
        ims = [im for im in prog.impls if im.get("trait") == trait and not im["crate"].startswith("spec_")]
        if not ims:
            return "any implementor of %s" % trait
        for im in ims:
            w = keeps(prog, auto, tr, im["selfty"], depth + 1)
            if w:
                return "may be %s: %s" % (show(im["selfty"]), w)
        return None
    return "%s is not known to be %s" % (str(t)[:80], tr)


def dyn_trait(t):
    return t[1][0] if isinstance(t[1], (tuple, list)) else t[1]
