"""Tables that describe the same set twice: constructors, curves, codes and unit
factors are compared with tables written out from the names; what can be drawn or
is offered is read off the value summaries and has to cover the whole type."""
from .. import twin, terms as tm
from ..terms import num


def run(ck):
    prog = ck.load("tables")
    ck.floor("agrees with its definition", 11)
    ck.floor("every variant can be drawn", 3)
    ck.floor("every variant is offered once", 2)
    fns = {f.name: f for f in prog.fns.values() if f.crate == "spec_tables" and f.name}
    for name, fi, fs in twin.pairs(prog, "spec_tables"):
        twin.compare(ck, name, fi, fs, opaque=opaque(prog))
    for n, f in sorted(fns.items()):
        if n.startswith("drawn_") or n.startswith("offered_"):
            rule = "every variant can be drawn" if n.startswith("drawn_") else "every variant is offered once"
            t = f.locals[0]
            t = t[1] if t[0] == "array" else t
            try:
                r = ck.summary(f)
                where = ", ".join(sorted({prog.fns[b].span for b in ck.last.stats["bodies"] if b in prog.fns and not b.startswith("spec_")})[:4])
                if n.startswith("drawn_"):
                    got = kinds(r[0], t[1])
                else:
                    got = [k for x in elements(r[0]) for k in kinds(x, t[1])]
            except tm.Limit as e:
                ck.fail(rule, n, str(e))
                continue
            names = prog.adts[t[1]]["v"]
            miss = [names[i]["n"] for i in range(len(names)) if i not in got]
            dup = [names[i]["n"] for i in range(len(names)) if list(got).count(i) > 1] if n.startswith("offered_") else []
            ck.oblige(rule, n, not miss and not dup, ("missing: %s" % miss if miss else "twice: %s" % dup if dup else "%d variants" % len(names)), where)


def elements(t):
    if t.op == "agg" and t.a[0][0] == "array":
        return list(t.a[1])
    out = []
    while t.op == "op" and t.a[0] == "push":
        out.append(t.a[1][1])
        t = t.a[1][0]
    if t.op == "op" and t.a[0] == "vec_empty":
        return out[::-1]
    raise tm.Limit("not a list of known elements: " + tm.show(t, 3)[:200])


def kinds(t, adt):
    """The variants the value may have over all draws."""
    if t.op == "enum" and t.a[1].op == "num":
        return {int(t.a[1].a[0])}
    if t.op == "case":
        return set().union(*[kinds(c, adt) for c in t.a[1]]) if not draws(t) else drawn(t, adt)
    if draws(t):
        return drawn(t, adt)
    raise tm.Limit("not a draw: " + tm.show(t, 3)[:200])


def draws(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "op" and str(x.a[0]).startswith("rand:"):
            out.append(x)
            continue
        st += tm.children(x)
    return out


def drawn(t, adt):
    d = draws(t)
    d = d[0]
    got = set()
    if d.a[0] == "rand:choose":
        seq = d.a[1][0]
        while seq.op in ("rv", "deref", "op") and not (seq.op == "op" and seq.a[0] in ("push", "vec_empty")):
            c = tm.children(seq)
            if len(c) != 1:
                break
            seq = c[0]
        for x in elements(seq):
            got |= kinds(x, adt)
        return got
    if d.a[0] == "rand:gen_range":
        r = d.a[1][-1]
        f = [x for x in tm.children(r)]
        if len(f) < 2 or f[0].op != "num" or f[1].op != "num":
            raise tm.Limit("draws from an unknown range: " + tm.show(r, 3))
        hi = int(f[1].a[0]) + (1 if "Inclusive" in repr(r.a[0]) else 0)
        for v in range(int(f[0].a[0]), hi):
            x = tm.replace(t, {d: num(v)})
            if x is not tm.BOT:
                got |= kinds(x, adt)
        return got
    raise tm.Limit("unknown draw " + tm.show(d, 2))


def opaque(prog):
    out = set()
    for f in prog.fns.values():
        p = f.id.split("::")
        if p[0] == "juno" and f.name == "new" and p[1] in ("strategies", "stop_loss", "take_profit", "indicators"):
            out.add(f.id)
    return out
