"""C17: what can be generated can be constructed.

For every variant of every parameter enum the constructor is summarised on the
parameters as generated without a context; the condition under which it
returns has to hold for all outcomes of the draws.  Mutated and crossed
parameters are made of the same genes (C16), and every gene is drawn on its
own, so nothing is concluded from two genes of one individual together."""
from .. import terms as tm, ranges
from .c16 import Kit

ACC = "the constructor accepts what is generated"
DRAW = "draws are from ranges that are not empty"


def run(ck):
    prog = ck.load("genetics")
    ck.floor(ACC, 24)
    ck.floor(DRAW, 15)
    tr = prog.trait_named("Chromosome")
    types = {}
    for im in prog.impls_of(tr):
        if im["selfty"][0] == "adt" and prog.adts[im["selfty"][1]].get("crate") == "juno":
            a = im["selfty"][1]
            types[a] = {n: prog.trait_method(tr, a, n) for n in ("len", "generate", "cross", "mutate")}
    k = Kit(ck, prog, types)
    cons = {a: prog.method(a, "construct") for a in types if prog.adts[a]["kind"] == "enum"}
    opq = {types[a]["generate"].id for a in cons}
    made = {}
    for a in sorted(types):
        if a in cons:
            continue
        f = types[a]["generate"]
        name = prog.adts[a]["name"] + where(a)
        ctx = nothing(k, f.locals[2][1][1], tm.sym("arg1"))
        try:
            g = ck.summary(f, args={1: ctx} if ctx.op == "agg" else None, opaque=opq, inline_dyn=True)
        except tm.Limit as e:
            ck.fail(DRAW, name, str(e), ck.where(f))
            continue
        if g is None:
            ck.fail(DRAW, name, "generating never returns", ck.where(f))
            continue
        made[a] = g[0]
        bad, n = None, 0
        todo = list(ranges.draws(g[0])) + (list(ranges.draws(g[1][("A", 0)])) if ("A", 0) in g[1] else [])
        for d in {x: 1 for x in todo}:
            e = ranges.ends(d)
            n += 1
            if e is None:
                bad = bad or "unknown range " + tm.show(d, 3)[:80]
                continue
            f2 = ranges.Facts()
            x = tm.sub(e[1], e[0])
            if x.op == "case" or not f2.holds(ranges.linear(x), not e[2]):
                bad = bad or "the range may be empty: " + tm.show(d.a[1][-1], 3)[:80]
        if n or bad:
            ck.oblige(DRAW, name, bad is None, bad or "%d draws" % n, ck.where(f))
    meta = tm.sym("arg1")
    for a in sorted(cons):
        for i, v in enumerate(prog.adts[a]["v"]):
            c = k.nested(k.fields(a, i)[0][1])
            name = "%s::%s" % (prog.adts[a]["name"], v["n"])
            if c not in made:
                ck.fail(ACC, name, "no summary of what is generated", ck.where(cons[a]))
                continue
            m = tm.replace(made[c], {tm.sym("arg0"): tm.sym("%rng"), meta: tm.sym("%ctx")})
            try:
                r = ck.summary(cons[a], args={0: k.option(a, i, m)}, inline_dyn=True, opaque={f.id for b, f in cons.items() if b != a})
                g = ck.last.root_guard
                if r is None:
                    ck.fail(ACC, name, "construction never returns", ck.where(cons[a]))
                    continue
                p = ranges.possible(g, ranges.Facts(), lambda t: only(t, meta))
            except tm.Limit as e:
                ck.fail(ACC, name, str(e), ck.where(cons[a]))
                continue
            where_ = ", ".join(sorted({prog.fns[b].span for b in ck.last.stats["bodies"] if b in prog.fns and prog.fns[b].path.endswith("::new")})[:4])
            ck.oblige(ACC, name, p is None, "may be rejected: " + "; ".join("%s is %s" % (tm.show_test(t[0], 3)[:120], bool(t[1])) if isinstance(t, tuple) else tm.show(t, 3)[:80] for t in p[-2:]) if p is not None else "for every draw", where_)


def where(a):
    return " (%s)" % "::".join(a.split("::")[-3:-1])


def nothing(k, cadt, at):
    """A context that fixes nothing."""
    if k.prog.adts[cadt]["kind"] == "enum":
        return at
    out = []
    for n, t, e in k.fields(cadt):
        if t[0] == "adt" and t[1].endswith("option::Option"):
            out.append(k.option(t[1], k.prog.variant_index(t[1], "None")))
        elif t[0] == "adt" and t[1] in k.prog.adts and k.prog.adts[t[1]]["local"] and k.prog.adts[t[1]]["kind"] == "struct" and t[1].endswith("Context"):
            out.append(nothing(k, t[1], tm.proj(at, e)))
        else:
            out.append(tm.proj(at, e))
    return tm.mk_agg(("adt", cadt), tuple(out))


def only(test, x):
    """The test is about x alone."""
    seen, todo = set(), list(tm.children(test)) if isinstance(test, tm.T) else []
    some = False
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "sym" or t.op == "op" and str(t.a[0]).startswith(("rand:", "call:")):
            if t is not x:
                return False
            some = True
        todo += tm.children(t)
    return some
