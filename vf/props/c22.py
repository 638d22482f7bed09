"""Parsing: the value summary of Interval::from_str and Timestamp::from_str for
an arbitrary string against definitions (spec/parse.rs), including the condition
under which they return at all (no reachable failing unwrap); where strings are
cut; that no arithmetic on the way can overflow; and that deserialising accepts
exactly a whole number or what parsing accepts."""
from .. import terms as tm, twin
from ..calls import Graph
from ..models import RESULT, OPTION, is_v, payload, opt, strip
from ..terms import TRUE, ZERO, proj

VISITOR = "serde_core::de::Visitor"


def run(ck):
    prog = ck.load("parse")
    ck.floor("agrees with its definition", 2)
    ck.floor("never panics", 6)
    ck.floor("deserialises what it parses", 4)
    fns = {f.name: f for f in prog.fns.values() if f.crate == "spec_parse"}
    entries = []
    for t in ("Interval", "Timestamp"):
        n = t.lower()
        f = prog.trait_method("core::str::traits::FromStr", prog.adt_named(t), "from_str")
        entries.append((t + "::from_str", f))
        twin.compare(ck, n, fns["impl_" + n], fns["spec_" + n])
        entries += visitor(ck, prog, prog.adt_named(t), fns["spec_" + n])
    g = Graph(prog)
    for name, f in entries:
        try:
            ck.summary(f, inline_dyn=True)
            guard, slices = ck.last.root_guard, ck.last.slices
        except Exception as e:
            ck.fail("never panics", name, "could not be summarised: %s %s" % (type(e).__name__, str(e)[:200]), f.span)
            continue
        bad = []
        if guard is not TRUE:
            bad.append("a panic is reachable unless " + tm.show_test(guard.a[0], 4)[:200])
        bad += ["cut at %s, which need not be a character boundary of it" % tm.show(i, 3)[:200] for s, i in slices if not boundary(s, i)]
        r = g.reach([f.id])
        for x in r:
            if not statical(prog, x):
                bad += hazards(prog.fns[x], ck.last.stats["bodies"])
        ck.oblige("never panics", name, not bad, "; ".join(bad[:3]), f.span)


def statical(prog, x):
    # what runs once, without input
    f = prog.fns[x]
    p = f.path
    while p:
        q = prog.fns.get(p)
        if q is not None and q.argc == 0 and q.j.get("kind") in ("Static", "Const", "AssocConst"):
            return True
        if "::" not in p:
            return False
        p = p.rsplit("::", 1)[0]
    return False


PANICKING = ("slice::<impl [T]>::copy_from_slice", "str::<impl str>::split_at_mut", "panicking::panic_fmt_never")


def hazards(f, inlined):
    """Assertions of the MIR (overflow, bounds, division) that may fail on input."""
    out = []
    for b in f.blocks:
        t = b.get("t")
        if t and t[0] == "assert":
            if counter(f, b, t):
                continue
            out.append("may fail: %s in %s" % (t[3] if len(t) > 3 and isinstance(t[3], str) else "assertion", f.path))
    return out


def counter(f, b, t):
    """Overflow check of adding a constant to a usize (a length in memory)."""
    for s in b.get("s", []):
        if s[0] == "=" and s[2][0] in ("checked", "binop", "bin") and "Add" in str(s[2][1]):
            ks = [x for x in s[2][2:] if isinstance(x, list) and x and x[0] == "k"]
            if ks and f.prog.ty(f.crate, ks[0][1]["t"]) == ("uint", "usize"):
                return True
    return False


def boundary(s, i):
    """Is byte i of s certainly between two characters?"""
    if i.op == "case":
        return all(boundary(s, c) for c in i.a[1])
    if i is tm.BOT or i is ZERO or i is tm.length(s):
        return True
    if i.op == "op" and i.a[0] in ("find", "rfind"):
        return i.a[1][0] is s
    if s.op == "op" and s.a[0] == "subseq":
        # a boundary of the string it was cut from
        b, lo, hi = s.a[1]
        return boundary(b, tm.add(lo, i))
    return i.op == "op" and i.a[0] == "len" and i.a[1][0] is s


def visitor(ck, prog, adt, spec):
    """The visitor whose value is the type: what each of its methods accepts."""
    rule = "deserialises what it parses"
    name = adt.rsplit("::", 1)[-1]
    out = []
    want = None
    vis = []
    for im in prog.impls:
        if (im.get("trait") or "").endswith("de::Visitor") and not im["crate"].startswith("spec_"):
            for it in im["items"]:
                if it["name"] == "Value" and "ty" in it and prog.ty(im["crate"], it["ty"]) == ("adt", adt, ()):
                    vis.append(im)
    if len(vis) != 1:
        ck.fail(rule, name, "%d visitors produce it" % len(vis))
        return out
    have = {it["name"]: prog.fns[it["id"]] for it in vis[0]["items"] if it["name"].startswith("visit_") and it.get("id") in prog.fns}
    for m, f in sorted(have.items()):
        what = "%s::%s" % (name, m)
        out.append((what, f))
        try:
            r = ck.summary(f, args={1: tm.sym("arg0")} if False else None, inline_dyn=True)
            got = opt(is_v(r[0], RESULT, 0), proj(payload(r[0], RESULT, 0), ("f", ("adt", adt), 0, 0)))
            t = f.locals[2]
            if t[0] == "uint":
                x = tm.sym("arg1")
                exp = opt(TRUE, ck.last.typed(x, t))
            elif m in ("visit_str", "visit_borrowed_str", "visit_string"):
                root = ("A", 1)
                ev = ck.flow(inline_dyn=True)
                exp = ev.run(spec, [tm.mk("ref", root, ())], {root: tm.sym("arg1")}, {})[0]
            else:
                ck.fail(rule, what, "accepts a kind of input that is neither a whole number nor text", f.span)
                continue
        except Exception as e:
            ck.fail(rule, what, "could not be summarised: %s %s" % (type(e).__name__, str(e)[:200]), f.span)
            continue
        a, b = tm.canon(got), tm.canon(exp)
        ck.oblige(rule, what, a is b, "" if a is b else twin.diff(a, b), f.span)
    for m in ("visit_u64", "visit_str"):
        if m not in have:
            ck.fail(rule, "%s::%s" % (name, m), "not accepted", "")
    return out
