"""Copies are equal to what they were made of.

Library calls that copy (`to_vec`, `extend_from_slice`, `cloned`, ..) are read as
copying values; that is right for the types of the workspace if their `Clone` is."""
from . import terms as tm

RULE = "copies are equal"


def check(ck, floor=40):
    ck.floor(RULE, floor)
    for f in sorted(ck.prog.fns.values(), key=lambda f: f.id):
        if f.name != "clone" or f.j.get("trait") != "core::clone::Clone" or not f.id.startswith("juno"):
            continue
        r = ck.summary(f)
        v = r[0] if r is not None else None
        t = f.locals[0]
        same = v is tm.sym("arg0") or v is not None and v.op == "agg" and not v.a[1] or v is not None and v.op == "enum" and len(v.a[2]) == 1 and not v.a[2][0]
        ck.oblige(RULE, "Clone of " + str(t[1] if t[0] == "adt" else t)[:80], same,
                  "" if same else "a clone is not the value it was made of: %s" % str(v)[:300], f.span)
