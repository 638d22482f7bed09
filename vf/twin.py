"""Compares the value summaries of pairs impl_x / spec_x of a reference file."""
from . import terms as tm
from .terms import T


def pairs(prog, crate):
    fns = {f.name: f for f in prog.fns.values() if f.crate == crate and f.name}
    return [(n[5:], fns[n], fns["spec_" + n[5:]]) for n in sorted(fns) if n.startswith("impl_") and "spec_" + n[5:] in fns]


def obs(prog, ev, v, mem, t):
    """The value with references replaced by what they point at."""
    return tm.canon(v)


def compare(ck, name, fi, fs, rule="agrees with its definition", limit=120, parts=None, canon=None, **kw):
    """fi and fs must have the same value for all arguments.  A definition may
    be written in several ways (spec_x, spec_x__2, ..): one of them must agree."""
    alts = sorted((f for f in ck.prog.fns.values() if f.crate == fs.crate and f.name and f.name.startswith(fs.name + "__")), key=lambda f: f.name)
    if alts:
        class Quiet:
            def __getattr__(self, k):
                return getattr(ck, k)

            def fail(self, *a, **k):
                return False

            def ok(self, *a, **k):
                return True
        for f in [fs] + alts:
            if _compare(Quiet(), name, fi, f, rule, limit, parts, canon, **kw):
                return _compare(ck, name, fi, f, rule, limit, parts, canon, **kw)
    return _compare(ck, name, fi, fs, rule, limit, parts, canon, **kw)


def _compare(ck, name, fi, fs, rule, limit, parts, canon, **kw):
    try:
        ri = ck.summary(fi, limit=limit, inline_dyn=True, **kw)
        bodies = [b for b in ck.last.stats["bodies"] if not b.startswith("spec_")]
        rs = ck.summary(fs, limit=limit, inline_dyn=True, **kw)
        domain = tm.regions(getattr(ck.last, "root_guard", tm.TRUE))
    except Exception as e:
        import os, traceback
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
        ck.fail(rule, name, "could not be summarised: %s %s" % (type(e).__name__, str(e)[:300]))
        return False
    where = ", ".join(sorted({ck.prog.fns[b].span for b in bodies if b in ck.prog.fns})[:6])
    if ri is None or rs is None:
        return ck.oblige(rule, name, False, "never returns", where)
    ra, rb = written(fi, ri), written(fs, rs)
    if parts is not None:
        ra, rb = part(ra, parts), part(rb, parts)
    # the reference is defined where its assertions hold
    for i, lits in enumerate(domain):
        a, b = tm.assume(ra, lits), tm.assume(rb, lits)
        if canon is not None:
            a, b = canon(a), canon(b)
        a, b = tm.canon(a), tm.canon(b)
        if not tm.same(a, b):
            ck.fail(rule, name, diff(a, b), where)
            return False
    ck.ok(rule, name, "value: " + tm.show(a, 4)[:200], where)
    return True


def written(fn, r):
    """The result together with what was written through reference arguments."""
    v, mem = r
    out = [mem[("A", k)] for k in range(fn.argc) if fn.locals[k + 1][0] == "ref" and fn.locals[k + 1][2]]
    return tm.mk_agg(("tuple", len(out) + 1), tuple([v] + out)) if out else v


def part(t, parts):
    """Some of the components of a tuple."""
    fs = tm.fields_of(t, t.a[0], len(t.a[1])) if t.op == "agg" else None
    if fs is None:
        raise tm.Limit("not a tuple: " + tm.show(t, 1)[:80])
    return tm.mk_agg(("tuple", len(parts)), tuple(fs[i] for i in parts))


def diff(a, b, path="result", depth=0):
    """First place where two terms differ."""
    if a is b:
        return ""
    if depth < 6 and a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            if x is not y:
                return diff(x, y, "%s.%d" % (path, i), depth + 1)
    if depth < 6 and a.op == "enum" and b.op == "enum" and a.a[0] == b.a[0]:
        if a.a[1] is not b.a[1]:
            return diff(a.a[1], b.a[1], path + ".tag", depth + 1)
        for i, (p, q) in enumerate(zip(a.a[2], b.a[2])):
            for j, (x, y) in enumerate(zip(p or (), q or ())):
                if x is not y:
                    return diff(x, y, "%s.%d.%d" % (path, i, j), depth + 1)
    return "%s\n code:      %s\n reference: %s" % (path, tm.show(a, 7)[:1500], tm.show(b, 7)[:1500])
