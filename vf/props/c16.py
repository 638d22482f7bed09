"""C16: genes of every parameter type.

The operations of each type implementing Chromosome are summarised with the
operations of its component types unknown, so every type is judged on its own
and the whole by induction.  The index is then set to each value below the
length, which makes the summaries read as "this component and no other": what
index i exchanges in crossing is the gene it addresses, mutating at i has to
write that gene and no other, with what generating yields for it."""
from .. import terms as tm
from ..terms import num

CROSS = "crossing exchanges one gene and nothing else"
PART = "the indexes address every gene once"
MUT = "mutating redraws the addressed gene and nothing else"
GEN = "generating and mutating use the context's value, and draw otherwise"
ENUM = "genes of different variants are not mixed"


def run(ck):
    prog = ck.load("genetics")
    ck.floor(CROSS, 20)
    ck.floor(PART, 20)
    ck.floor(MUT, 20)
    ck.floor(GEN, 20)
    ck.floor(ENUM, 3)
    tr = prog.trait_named("Chromosome")
    types = {}
    for im in prog.impls_of(tr):
        if im["selfty"][0] == "adt" and prog.adts[im["selfty"][1]].get("crate") == "juno":
            a = im["selfty"][1]
            types[a] = {n: prog.trait_method(tr, a, n) for n in ("len", "generate", "cross", "mutate")}
    k = Kit(ck, prog, types)
    for a in sorted(types):
        name = prog.adts[a]["name"]
        try:
            (k.enum if prog.adts[a]["kind"] == "enum" else k.struct)(a, name)
        except tm.Limit as e:
            ck.fail(CROSS, name, str(e), ck.where(types[a]["cross"]))


class Wrong(Exception):
    pass


class Kit:
    def __init__(self, ck, prog, types):
        self.ck, self.prog, self.types = ck, prog, types
        self.ops = {f.id: (a, n) for a, m in types.items() for n, f in m.items() if n != "len"}
        self.lens = {}

    def len(self, a):
        if a not in self.lens:
            r = self.ck.summary(self.types[a]["len"])
            if r is None or r[0].op != "num":
                raise tm.Limit("the number of genes is not a constant")
            self.lens[a] = int(r[0].a[0])
        return self.lens[a]

    def op(self, a, n, args=None):
        """Summary of one operation of a; those of other types are unknown."""
        opq = {i for i, (b, _) in self.ops.items() if b != a}
        f = self.types[a][n]
        r = self.ck.summary(f, args=args, opaque=opq)
        if r is None or r[0] is tm.BOT:
            raise tm.Limit("%s never returns" % f.path)
        # what it does where it returns
        lits = tm.literals(self.ck.last.root_guard)
        return (tm.assume(r[0], lits), {k: tm.assume(v, lits) for k, v in r[1].items()})

    def call(self, a, n, w=None):
        return "call:%s%s" % (self.types[a][n].id, "" if w is None else "!%d" % w)

    def fields(self, a, v=0):
        return [(f["n"], self.prog.ty(self.prog.adts[a]["crate"], f["t"]), ("f", ("adt", a), v, i))
                for i, f in enumerate(self.prog.adts[a]["v"][v]["f"])]

    def nested(self, t):
        return t[1] if t[0] == "adt" and t[1] in self.types else None

    # ------------------------------------------------------------- structs --
    def struct(self, a, name):
        ck = self.ck
        n = self.len(a)
        fields = self.fields(a)
        where = {m: ck.where(f) for m, f in self.types[a].items()}
        if n == 0:
            gen = self.op(a, "generate")
            leaves = [f for f, t, e in fields if self.nested(t) is None or self.len(self.nested(t))]
            ck.oblige(PART, name, not leaves, "no index for %s" % leaves if leaves else "no parameters", where["len"])
            return
        x, y = tm.sym("arg0"), tm.sym("arg1")
        cross, mutate, gen = self.op(a, "cross"), self.op(a, "mutate"), self.op(a, "generate")
        genes = []
        bad = None
        for i in range(n):
            try:
                sx, sy = (tm.replace(cross[1][("A", k)], {tm.sym("arg2"): num(i)}) for k in (0, 1))
                genes.append(self.gene(fields, x, y, sx, sy))
            except Wrong as e:
                bad = bad or "index %d: %s" % (i, e)
                genes.append(None)
        ck.oblige(CROSS, name, bad is None, bad or "%d indexes" % n, where["cross"])
        want = []
        for f, t, e in fields:
            c = self.nested(t)
            want += [(f, j) for j in range(self.len(c))] if c else [(f, None)]
        got = [g for g in genes if g]
        miss = [g for g in want if g not in got]
        dup = sorted({g for g in got if got.count(g) > 1}, key=str)
        if bad is None:
            ck.oblige(PART, name, not miss and not dup, ("not addressed: %s" % miss if miss else "addressed twice: %s" % dup if dup else "%d genes" % n), where["cross"])
        bad, bad2 = None, None
        for i in range(n):
            g = genes[i]
            if g is None:
                continue
            m = {tm.sym("arg2"): num(i)}
            s = tm.replace(mutate[1][("A", 0)], m)
            rng = tm.replace(mutate[1].get(("A", 1), tm.sym("arg1")), m)
            for f, t, e in fields:
                was, now = tm.proj(x, e), tm.proj(s, e)
                if f != g[0]:
                    if not same(now, was):
                        bad = bad or "index %d: %s changes, not %s" % (i, f, g[0])
                    continue
                c = self.nested(t)
                if c:
                    w = self.asked(now, self.call(c, "mutate", 0), was, g[1], f)
                    bad = bad or (w and "index %d: %s" % (i, w))
                    if not w and rng.op == "op" and rng.a[0] != self.call(c, "mutate", 1):
                        bad = bad or "index %d: the generator is not the one %s left" % (i, f)
                    continue
                bad2 = bad2 or self.drawn(a, f, now)
        for f, t, e in fields:
            c = self.nested(t)
            if c:
                w = self.generated(f, c, tm.proj(gen[0], e))
                bad2 = bad2 or w
        ck.oblige(MUT, name, bad is None, bad or "%d indexes" % n, where["mutate"])
        ck.oblige(GEN, name, bad2 is None, bad2 or "%d genes" % n, where["generate"])

    def gene(self, fields, x, y, sx, sy):
        """What one index exchanges."""
        hit = []
        for f, t, e in fields:
            px, py, nx, ny = tm.proj(x, e), tm.proj(y, e), tm.proj(sx, e), tm.proj(sy, e)
            if same(nx, px) and same(ny, py):
                continue
            if same(nx, py) and same(ny, px):
                hit.append((f, None))
                continue
            c = self.nested(t)
            j = c and self.crossed(nx, ny, c, px, py)
            if j is None:
                raise Wrong("%s becomes %s and %s" % (f, tm.show(nx, 3)[:80], tm.show(ny, 3)[:80]))
            hit.append((f, j))
        if len(hit) != 1:
            raise Wrong("it exchanges %s" % (hit or "nothing"))
        return hit[0]

    def crossed(self, nx, ny, c, px, py):
        """The index at which px and py were crossed to give nx and ny."""
        for k, (p, q) in enumerate(((px, py), (py, px))):
            u, v = (nx, ny) if k == 0 else (ny, nx)
            if u.op == v.op == "op" and u.a[0] == self.call(c, "cross", 0) and v.a[0] == self.call(c, "cross", 1) and u.a[1] == v.a[1]:
                s, o, j = u.a[1]
                if value(s) is p and value(o) is q and j.op == "num":
                    return int(j.a[0])
        return None

    def asked(self, now, call, was, j, f):
        if now.op != "op" or now.a[0] != call:
            return "%s becomes %s" % (f, tm.show(now, 3)[:100])
        s, r, i, c = now.a[1]
        if value(s) is not was:
            return "%s is mutated from something else" % f
        if value(r) is not tm.sym("arg1"):
            return "%s is drawn from another generator" % f
        if i.op != "num" or int(i.a[0]) != j:
            return "%s is mutated at gene %s, crossed at %s" % (f, tm.show(i, 2), j)
        if not named(value(c), tm.sym("arg3"), f, self.prog):
            return "%s is mutated in the context %s" % (f, tm.show(c, 3)[:80])
        return None

    def generated(self, f, c, g):
        if g.op != "op" or g.a[0] != self.call(c, "generate"):
            return "%s is generated as %s" % (f, tm.show(g, 3)[:100])
        if not named(value(g.a[1][1]), tm.sym("arg1"), f, self.prog):
            return "%s is generated in the context %s" % (f, tm.show(g.a[1][1], 3)[:80])
        return None

    def drawn(self, a, f, v):
        """A gene redrawn by mutating (generator arg1, context arg3): the context's
        value, or else what generating draws."""
        ctx = tm.sym("arg3")
        cadt = self.types[a]["generate"].locals[2][1][1]
        cf = {n: (t, e) for n, t, e in self.fields(cadt)}
        if f in cf:
            key = f
        elif len(cf) == 1:
            key = list(cf)[0]
        else:
            return "%s is not in the context" % f
        t, e = cf[key]
        pr = tm.proj(ctx, e)
        rest = [s for s in uses(v, ctx) if not within(s, pr)]
        if rest:
            return "%s is drawn with the context's %s" % (f, tm.show(rest[0], 2))
        if t[0] == "adt" and t[1].endswith("option::Option"):
            some = self.prog.variant_index(t[1], "Some")
            x = tm.sym("given")
            if not same(tm.replace(v, {pr: self.option(t[1], some, x)}), x):
                return "%s is not the context's value where it has one" % f
            free = tm.replace(v, {pr: self.option(t[1], 1 - some)})
            if list(uses(free, ctx)):
                return "%s depends on the context where it has no value" % f
        elif t[0] == "adt" and t[1].endswith("Vec"):
            n = tm.length(pr)
            x = tm.sym("given")
            if tm.replace(v, {n: num(1)}) is not tm.select(pr, num(0)):
                return "%s is not the only value the context offers" % f
            many = tm.replace(v, {n: num(7)})
            if not chosen(many, pr):
                return "%s is not chosen from those the context offers" % f
        else:
            return "%s: the context holds a %s" % (f, t[:2])
        # generating with every other gene fixed leaves the generator alone
        def fixed(but):
            out = []
            for n, t, e in self.fields(cadt):
                c = tm.proj(tm.sym("arg1"), e)
                if n != but and t[0] == "adt" and t[1].endswith("option::Option"):
                    c = self.option(t[1], self.prog.variant_index(t[1], "Some"), tm.sym("fixed_" + n))
                out.append(c)
            return {1: tm.mk_agg(("adt", cadt), tuple(out))} if len(out) > 1 else None
        fe = [e for n, t, e in self.fields(a) if n == f][0]
        g = self.op(a, "generate", fixed(key))
        now = tm.proj(g[0], fe)
        before = {tm.sym("arg0")}
        if any(self.nested(t) for n, t, e in self.fields(a)):
            before.add(self.op(a, "generate", fixed(None))[1].get(("A", 0), tm.sym("arg0")))
        for b in before:
            w = tm.replace(tm.replace(v, {tm.sym("arg1"): tm.sym("%rng"), ctx: tm.sym("%ctx")}), {tm.sym("%rng"): b, tm.sym("%ctx"): tm.sym("arg1")})
            if w is now or tm.canon(w) is tm.canon(now):
                return None
        return "%s is drawn differently when mutated" % f

    def option(self, adt, k, *fs):
        return tm.mk_enum(adt, num(k), tuple(tuple(fs) if i == k else tuple(tm.BOT for _ in v["f"]) for i, v in enumerate(self.prog.adts[adt]["v"])))

    # --------------------------------------------------------------- enums --
    def enum(self, a, name):
        ck = self.ck
        n = self.len(a)
        where = {m: ck.where(f) for m, f in self.types[a].items()}
        vs = []
        for k, v in enumerate(self.prog.adts[a]["v"]):
            fs = self.fields(a, k)
            c = self.nested(fs[0][1]) if len(fs) == 1 else None
            if c is None:
                raise tm.Limit("variant %s does not hold parameters" % v["n"])
            vs.append((v["n"], c))
        longest = max(self.len(c) for _, c in vs)
        ck.oblige(PART, name, n == 1 + longest, "%d indexes for the variant and %d genes" % (n, longest), where["len"])
        one = lambda k, x: self.option(a, k, x)
        x, y, ix = tm.sym("left"), tm.sym("right"), tm.sym("arg2")
        bad = mixed = None
        for k, (vk, ckk) in enumerate(vs):
            for l, (vl, cl) in enumerate(vs):
                r = self.op(a, "cross", {0: one(k, x), 1: one(l, y)})
                for i in range(n):
                    sx, sy = (tm.replace(r[1][("A", j)], {ix: num(i)}) for j in (0, 1))
                    if i == 0:
                        ok = self.payload(sx, l) is y and self.payload(sy, k) is x
                    elif k != l or i - 1 >= self.len(ckk):
                        ok = self.payload(sx, k) is x and self.payload(sy, l) is y
                    else:
                        nx, ny = (self.payload(t, k) for t in (sx, sy))
                        ok = nx is not None and ny is not None and self.crossed(nx, ny, ckk, x, y) == i - 1
                    if not ok and k == l:
                        bad = bad or "%s at %d: %s" % (vk, i, tm.show(sx, 3)[:100])
                    elif not ok:
                        mixed = mixed or "%s with %s at %d: %s" % (vk, vl, i, tm.show(sx, 3)[:100])
        ck.oblige(CROSS, name, bad is None, bad or "%d variants, %d indexes" % (len(vs), n), where["cross"])
        ck.oblige(ENUM, name, mixed is None, mixed or "%d pairs of variants" % (len(vs) ** 2 - len(vs)), where["cross"])
        # contexts
        cadt = self.types[a]["generate"].locals[2][1][1]
        cs = [(k, v["n"], len(v["f"])) for k, v in enumerate(self.prog.adts[cadt]["v"])]
        z, rng = tm.sym("context"), tm.sym("arg1")
        bad = wrong = None
        for k, cn, nf in cs:
            given = self.option(cadt, k, *([z] * nf))
            g = self.op(a, "generate", {1: given})
            got = [i for i, (vn, c) in enumerate(vs) if vn == cn]
            if nf and len(got) == 1:
                p = self.payload(g[0], got[0])
                ok = p is not None and p.op == "op" and p.a[0] == self.call(vs[got[0]][1], "generate") and value(p.a[1][0]) is tm.sym("arg0") and value(p.a[1][1]) is z
                wrong = wrong or (None if ok else "%s in the context is generated as %s" % (cn, tm.show(g[0], 3)[:100]))
            elif not nf:
                wrong = wrong or self.free(a, vs, g[0])
            else:
                wrong = wrong or "no variant for the context's %s" % cn
            for l, (vl, c) in enumerate(vs):
                r = self.op(a, "mutate", {0: one(l, x), 3: given})
                for i in range(n):
                    s = tm.replace(r[1][("A", 0)], {ix: num(i)})
                    if i == 0:
                        want = tm.replace(g[0], {tm.sym("arg0"): rng})
                        if s is not want and tm.canon(s) is not tm.canon(want):
                            wrong = wrong or "the variant redrawn from %s in the context %s is not what is generated" % (vl, cn)
                        continue
                    if i - 1 >= self.len(c):
                        ok = self.payload(s, l) is x
                    else:
                        p = self.payload(s, l)
                        ok = p is not None and p.op == "op" and p.a[0] == self.call(c, "mutate", 0)
                        if ok:
                            b, d, j, e = p.a[1]
                            ok = value(b) is x and value(d) is rng and j is num(i - 1)
                            if ok and not (value(e) is z if cn == vl else self.default(value(e), c)):
                                wrong = wrong or "%s is mutated in the context %s instead of %s" % (vl, tm.show(e, 3)[:80], cn if cn == vl else "the default one")
                    if not ok:
                        bad = bad or "%s in the context %s at %d: %s" % (vl, cn, i, tm.show(s, 3)[:100])
        ck.oblige(MUT, name, bad is None, bad or "%d variants, %d contexts, %d indexes" % (len(vs), len(cs), n), where["mutate"])
        ck.oblige(GEN, name, wrong is None, wrong or "%d contexts" % len(cs), where["generate"])

    def payload(self, t, k):
        """What variant k holds, when t is variant k."""
        if t.op != "enum" or t.a[1] is not num(k):
            return None
        return t.a[2][k][0]

    def free(self, a, vs, g):
        """A variant drawn without a context."""
        if g.op != "enum":
            return "without a context %s is generated" % tm.show(g, 3)[:80]
        got = tags(g.a[1])
        if len(got) != len(vs):
            return "only %s are drawn" % [vs[i][0] for i in sorted(got)]
        for k, (vn, c) in enumerate(vs):
            for p in leaves(g.a[2][k][0]):
                if p is not tm.BOT and not (p.op == "op" and p.a[0] == self.call(c, "generate") and self.default(value(p.a[1][1]), c)):
                    return "%s is drawn as %s" % (vn, tm.show(p, 3)[:80])
        return None

    def default(self, t, c):
        """A context which fixes nothing."""
        adt = self.types[c]["generate"].locals[2][1][1]
        if t.op == "enum":
            return t.a[1].op == "num" and not self.prog.adts[adt]["v"][int(t.a[1].a[0])]["f"] if adt == t.a[0] else False
        if t.op != "agg":
            return False
        for (f, ty, e), v in zip(self.fields(adt), t.a[1]):
            if ty[0] == "adt" and ty[1].endswith("option::Option"):
                if not (v.op == "enum" and v.a[1] is num(self.prog.variant_index(ty[1], "None"))):
                    return False
                continue
            sub = [c2 for n2, t2, e2 in self.fields(c) if n2 == f for c2 in [self.nested(t2)] if c2]
            if not sub or not self.default(v, sub[0]):
                return False
        return True


def tags(t):
    """The variants a drawn tag may name."""
    from .c29 import draws
    d = draws(t)
    if t.op == "num":
        return {int(t.a[0])}
    if len(d) != 1 or d[0].a[0] != "rand:gen_range":
        return set().union(*[tags(c) for c in t.a[1]]) if t.op == "case" and not d else set()
    r = tm.children(d[0].a[1][-1])
    if len(r) < 2 or r[0].op != "num" or r[1].op != "num":
        return set()
    hi = int(r[1].a[0]) + (1 if "Inclusive" in repr(d[0].a[1][-1].a[0]) else 0)
    out = set()
    for v in range(int(r[0].a[0]), hi):
        x = tm.replace(t, {d[0]: num(v)})
        out |= {int(x.a[0])} if x.op == "num" else set()
    return out


def leaves(t):
    return [x for c in t.a[1] for x in leaves(c)] if t.op == "case" else [t]


def fname(prog, e):
    return prog.adts[e[1][1]]["v"][e[2]]["f"][e[3]]["n"] if e[0] == "f" else None


def named(t, ctx, f, prog):
    return t.op == "proj" and t.a[0] is ctx and fname(prog, t.a[1]) == f


def value(t):
    return t.a[0] if t.op == "rv" else t.a[1][0] if t.op == "op" and t.a[0] == "rv" else t


def uses(t, x):
    """Largest projections of x in t."""
    seen, todo = set(), [t]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        r = s
        while r.op == "proj":
            r = r.a[0]
        if r is x:
            yield s
            continue
        todo += tm.children(s)


def within(s, p):
    while s.op == "proj":
        if s is p:
            return True
        s = s.a[0]
    return s is p


def same(t, x):
    """t is x, spelled out variant by variant or field by field."""
    if t is x or tm.canon(t) is tm.canon(x):
        return True
    if t.op == "case":
        if all(c.op == "bool" for c in t.a[1]):
            return t.a[0] is tm.mk("t_bool", x) and [c.a[0] for c in t.a[1]] == [False, True]
        return all(same(c, x) for c in t.a[1])
    if t.op == "agg":
        return all(c.op == "proj" and within(c, x) for c in t.a[1])
    return t.op == "enum" and t.a[1] is not tm.BOT and all(c.op == "proj" and within(c, x) for p in t.a[2] if p for c in p if c is not tm.BOT)


def chosen(t, s):
    """Every outcome is an element of s."""
    if t.op == "case":
        return all(chosen(c, s) for c in t.a[1])
    if t.op == "proj" and t.a[1][0] == "ix" and t.a[0] is s:
        return True
    x = t
    while x.op in ("deref", "proj") or (x.op == "op" and x.a[0] == "deref"):
        x = x.a[0] if x.op != "op" else x.a[1][0]
    return x.op == "op" and x.a[0].startswith("rand:choose") and value(x.a[1][0]) is s
