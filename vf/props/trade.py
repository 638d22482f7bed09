"""The simulated run as a transition system, read off the value summary of
`trade`: the candle loop is the recurrence whose carried list starts empty; its
carried places are told apart by what they start as and what they step to (not by
name).  One pass yields the state after a candle that is followed by another one
(`go`) or that ends the run (`stop`); the rest of the function is summarised over
the state the last pass began in."""
from .. import terms as tm
from ..terms import mk, num, ite, and_, or_, not_, proj, cmp, TRUE, FALSE, BOT, ZERO, ONE, sub, add
from ..models import is_v, payload, OPTION, RESULT
from ..check import Timeout

T = "juno::trading::"


class Shape(Exception):
    pass


class Model:
    def __init__(self, ck, limit=200):
        self.ck = ck
        self.prog = prog = ck.load("trade")
        self.spec = {f.name: f for f in prog.fns.values() if f.crate == "spec_trade" and f.name}
        pt = self.spec["types"].locals[1][1]
        self.POS = pt[1]
        self.OPEN = self.spec["exit"].locals[1][1][2][0][1]
        self.ADVICE = self.spec["exit"].locals[2][1]
        self.REASON = self.spec["exit"].locals[0][2][0][1]
        variant = lambda adt, n: [v["n"] for v in prog.adts[adt]["v"]].index(n)
        self.LONG, self.SHORT = variant(self.POS, "Long"), variant(self.POS, "Short")
        self.OLONG, self.OSHORT = variant(self.OPEN, "Long"), variant(self.OPEN, "Short")
        self.fn = prog.find(T + "trade") if T + "trade" in prog.fns else self.find_trade()
        ops = set()
        for a in ("StopLossParams", "TakeProfitParams", "StrategyParams"):
            ops.add(prog.method(prog.adt_named(a), "construct").id)
        found = []

        def cut(init, step, exit_, gl, ge, keys):
            if any(v.op == "op" and v.a[0] == "vec_empty" for v in init.values()):
                found.append((init, step, exit_, gl, ge, keys))
                return True
            return False
        self.ret, _ = ck.summary(self.fn, limit=limit, opaque=ops, inline_dyn=True, cut=cut)
        self.ev = ck.last
        self.ev.cut = None
        if len(found) != 1:
            raise Shape("%d loops that build up a list" % len(found))
        self.init, self.step, self.exit, self.gl, self.ge, self.keys = found[0]
        self.bodies = sorted(b for b in self.ev.stats["bodies"] if not b.startswith("spec_"))
        self.where = self.fn.span
        self.roles()

    def find_trade(self):
        r = [f for f in self.prog.fns.values() if f.name == "trade" and f.crate == "juno" and f.argc == 2]
        if len(r) != 1:
            raise Shape("no single function `trade`")
        return r[0]

    # ------------------------------------------------------------- roles ---
    def one(self, what, c):
        if len(c) != 1:
            raise Shape("%d carried places look like the %s" % (len(c), what))
        return c[0]

    def roles(self):
        i, st = self.init, self.step
        self.P = self.one("reported positions", [p for p in i if i[p].op == "op" and i[p].a[0] == "vec_empty"])
        self.I = self.one("candle counter", [p for p in i if i[p] is ZERO and tm.sub(st[p], p) is ONE])
        idx = self.I
        def box(p, trait):
            return any(t.op == "op" and str(t.a[0]).endswith(trait + "::update!0") and mentions(t, p) for t in subterms(st[p]))
        self.SL = self.one("stop loss", [p for p in i if box(p, "StopLoss")])
        self.TP = self.one("take profit", [p for p in i if box(p, "TakeProfit")])
        self.S = self.one("strategy", [p for p in i if box(p, "Strategy")])
        self.O = self.one("open position", [p for p in i if i[p].op == "enum" and i[p].a[0] == OPTION and
                                            any(t.op == "enum" and t.a[0] == self.OPEN for t in subterms(st[p]))])
        self.Q = self.one("balance", [p for p in i if tm.show(i[p], 9) == "arg1.quote"])
        self.PREV = self.one("previous advice", [p for p in i if p.ty == ("e", self.ADVICE)])
        # the candle at hand
        cs = {t for t in subterms(st[self.S]) if t.op == "proj" and t.a[1][0] == "ix" and t.a[1][1] is idx}
        self.candle = self.one("candle", sorted(cs, key=repr))
        self.candles = self.candle.a[0]
        self.len = tm.length(self.candles)
        self.present = cmp("ge", sub(self.len, idx), ONE, True)
        # what the loop leaves with: after the last candle, or early
        self.early = and_(self.ge, self.present)
        self.go = and_(self.gl, self.present)
        C = ("adt", self.spec["observe"].locals[4][1][1])
        fld = lambda n: self.prog.field_index(C[1], n)
        self.price = self.ev.typed(proj(self.candle, ("f", C, 0, fld("close"))), ("float", "f64"))
        self.time0 = proj(self.candle, ("f", C, 0, fld("time")))
        self.TS = self.spec["short_close"].locals[2][1]
        self.time = self.end_of(self.candle, C, fld("time"))

    def end_of(self, candle, C, i):
        raw = self.ev.typed(proj(proj(candle, ("f", C, 0, i)), ("f", ("adt", self.TS), 0, 0)), ("uint", "u64"))
        return tm.mk_agg(("adt", self.TS), (add(raw, self.interval()),))

    def interval(self):
        """The trading interval as it stands in the parameters (a number of milliseconds)."""
        tp = self.fn.locals[1][1][1]
        v = tm.sym("arg0")
        at, t = v, tp
        for n in ("trader", "interval"):
            k = self.prog.field_index(t, n)
            ft = self.prog.ty(self.prog.adts[t]["crate"], self.prog.adts[t]["v"][0]["f"][k]["t"])
            at, t = proj(at, ("f", ("adt", t), 0, k)), ft[1]
        at = proj(at, ("f", ("adt", t), 0, 0))
        return self.ev.typed(at, ("uint", "u64"))

    # ------------------------------------------------------- evaluation ---
    def call(self, name, *vals):
        """Value of a reference function; arguments taken by reference are put in places first."""
        fn = self.spec[name]
        mem, args, roots = {("A", 1): tm.sym("arg1"), ("A", 0): tm.sym("arg0")}, [], []
        for k, v in enumerate(vals):
            t = fn.locals[k + 1]
            if v == "input":
                args.append(mk("ref", ("A", 1), ()))
                roots.append(None)
            elif t[0] == "ref":
                r = ("X", "spec", name, k)
                mem[r] = v
                args.append(mk("ref", r, ()))
                roots.append(r)
            else:
                args.append(v)
                roots.append(None)
        r = self.ev.run(fn, args, mem, {})
        if r is None:
            raise Shape(name + " does not return")
        return r[0], [r[1].get(x) if x else None for x in roots]

    def carried_from_candle(self):
        """Places that hold, after a pass, something of that pass's candle only."""
        r = {}
        for p in self.init:
            if p is self.I:
                continue
            st = ite(self.go, self.step[p], BOT)
            st = drop(st, self.go)
            if st is not BOT and tm.free_phis(st) <= {self.I}:
                r[p] = st
        return r

    def subst(self, t):
        """A term at the regular end of the loop, at least one candle having been
        processed: the counter is the number of candles, and what was carried
        from the last candle is that of the last candle."""
        prev = sub(self.len, ONE)
        mp = {self.I: self.len}
        for p, st in self.carried_from_candle().items():
            mp[p] = tm.subst(st, {self.I: prev})
        return tm.subst(t, mp)

    def last_candle(self):
        prev = sub(self.len, ONE)
        t = tm.subst(self.time, {self.I: prev})
        return tm.subst(self.price, {self.I: prev}), proj(t, ("f", ("adt", self.TS), 0, 0))

    def state(self, which):
        """(guard, P', O', Q', value of any carried place) after a candle."""
        if which == "go":
            return self.go, self.step
        return self.early, self.exit

    def eq(self, cond, a, b):
        x, y = tm.canon(ite(cond, a, BOT)), tm.canon(ite(cond, b, BOT))
        return tm.same(x, y)

    def diff(self, cond, a, b):
        return " code: %s; expected: %s" % (tm.show(tm.canon(ite(cond, a, BOT)), 6)[:600], tm.show(tm.canon(ite(cond, b, BOT)), 6)[:600])

    def scalars(self, v, t, path=""):
        """The scalar parts of a value of a type, with the condition under which each exists."""
        if t[0] == "adt" and t[1] in self.prog.adts and t[1] != OPTION:
            ad = self.prog.adts[t[1]]
            if ad["kind"] == "enum":
                if not any(x["f"] for x in ad["v"]):
                    yield path + ".variant", TRUE, tm.tag_of(v, t[1])
                    return
                yield path + ".variant", TRUE, tm.tag_of(v, t[1])
            for w, vr in enumerate(ad["v"]):
                c = is_v(v, t[1], w) if ad["kind"] == "enum" else TRUE
                for i, f in enumerate(vr["f"]):
                    ft = self.prog.ty(ad["crate"], f["t"])
                    x = proj(v, ("f", ("adt", t[1]), w, i))
                    if c is not TRUE:
                        x = ite(c, x, BOT)
                    for p, c2, y in self.scalars(self.ev.typed(x, ft), ft, "%s.%s" % (path, f["n"])):
                        yield p, and_(c, c2), y
        elif t[0] == "adt" and t[1] == OPTION:
            c = is_v(v, OPTION, 1)
            yield path + ".is_some", TRUE, ite(c, ONE, ZERO)
            x = payload(v, OPTION, 1)
            for p, c2, y in self.scalars(self.ev.typed(ite(c, x, BOT), t[2][0]), t[2][0], path):
                yield p, and_(c, c2), y
        elif t[0] == "array" and isinstance(t[2], int) and t[2] <= 4:
            for i in range(t[2]):
                yield from self.scalars(self.ev.typed(tm.select(v, num(i)), t[1]), t[1], "%s[%d]" % (path, i))
        else:
            yield path, TRUE, v

    def same(self, cond, a, b, t):
        """First part in which two values of a type differ where cond holds."""
        for (p, ca, x), (_, cb, y) in zip(self.scalars(a, t), self.scalars(b, t)):
            c = and_(cond, cb)
            if not self.eq(c, x, y):
                return p + self.diff(c, x, y)
        return None


def subterms(t):
    out, st = {}, [t]
    while st:
        x = st.pop()
        if x in out:
            continue
        out[x] = 1
        st += tm.children(x)
    return list(out)


def mentions(t, p):
    return any(x is p for x in subterms(t))


def map_leaves(v, f):
    memo = {}

    def go(x):
        if x not in memo:
            memo[x] = tm.join(x.a[0], [go(c) for c in x.a[1]]) if x.op == "case" else (BOT if x is BOT else f(x))
        return memo[x]
    return go(v)


class Step:
    """What one pass does, for one way it can end."""

    def __init__(self, m, which):
        self.m, self.which = m, which
        self.cond, st = m.state(which)
        self.st = st
        self.P2, self.O2, self.Q2 = st[m.P], st[m.O], st[m.Q]
        self.odd = []

        def pushed(leaf):
            if leaf is m.P:
                return FALSE
            if leaf.op == "op" and leaf.a[0] == "push" and leaf.a[1][0] is m.P:
                return TRUE
            self.odd.append(leaf)
            return TRUE
        p2 = ite(self.cond, self.P2, BOT)
        self.closes = map_leaves(p2, pushed)
        self.closes = and_(self.cond, self.closes) if self.closes is not BOT else FALSE
        self.rec = map_leaves(p2, lambda l: l.a[1][1] if l.op == "op" and l.a[0] == "push" else BOT)
        self.held = is_v(m.O, OPTION, 1)
        self.open = payload(m.O, OPTION, 1)
        self.was_long = and_(self.held, is_v(self.open, m.OPEN, m.OLONG))
        self.was_short = and_(self.held, is_v(self.open, m.OPEN, m.OSHORT))
        self.flat = and_(self.cond, or_(not_(self.held), self.closes))
        self.has2 = is_v(self.O2, OPTION, 1)
        self.open2 = payload(self.O2, OPTION, 1)
        self.opened = and_(self.flat, self.has2)
        self.is_long = and_(self.opened, is_v(self.open2, m.OPEN, m.OLONG))
        self.is_short = and_(self.opened, is_v(self.open2, m.OPEN, m.OSHORT))
        self.closes_long = and_(self.closes, self.was_long)
        self.closes_short = and_(self.closes, self.was_short)
        # the balance once the position is closed
        ev, prog = m.ev, m.prog
        self.LP = m.spec["long_profit"].locals[1][1][1]
        self.SP = m.spec["short_profit"].locals[1][1][1]
        self.OL = m.spec["long_close"].locals[1][1][1]
        self.OS = m.spec["short_close"].locals[1][1][1]
        self.FILL = m.spec["long_proceeds"].locals[1][1]

    def long_rec(self):
        return proj(self.rec, ("f", ("adt", self.m.POS), self.m.LONG, 0))

    def short_rec(self):
        return proj(self.rec, ("f", ("adt", self.m.POS), self.m.SHORT, 0))

    def field(self, v, adt, name):
        m = self.m
        i = m.prog.field_index(adt, name)
        ad = m.prog.adts[adt]
        return m.ev.typed(proj(v, ("f", ("adt", adt), 0, i)), m.prog.ty(ad["crate"], ad["v"][0]["f"][i]["t"]))

    def fill(self, v, adt, name):
        return tm.select(self.field(v, adt, name), ZERO)

    def old(self, long):
        return proj(self.open, ("f", ("adt", self.m.OPEN), self.m.OLONG if long else self.m.OSHORT, 0))

    def new(self, long):
        return proj(self.open2, ("f", ("adt", self.m.OPEN), self.m.OLONG if long else self.m.OSHORT, 0))

    def balance(self):
        """The balance after closing, from what is recorded for the close."""
        m = self.m
        r = m.Q
        if self.closes_long is not FALSE:
            a, _ = m.call("long_proceeds", self.fill(self.long_rec(), self.LP, "close_fills"))
            r = ite(self.closes_long, add(m.Q, a), r)
        if self.closes_short is not FALSE:
            a, _ = m.call("short_proceeds", self.fill(self.short_rec(), self.SP, "close_fills"))
            r = ite(self.closes_short, add(m.Q, a), r)
        return r


def steps(m):
    return [Step(m, "go"), Step(m, "stop")]


NAME = {"go": "candle", "stop": "candle that ends the run"}


class Clauses:
    """Collects the obligations of one property over the transition system."""

    def __init__(self, ck, rule):
        self.ck, self.rule = ck, rule
        ck.assumptions += ["floating point arithmetic is read as exact real arithmetic",
                           "strategy, stop loss and take profit are arbitrary (uninterpreted state and answers)"]

    def model(self):
        try:
            m = Model(self.ck)
        except Exception as e:
            import os, traceback
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            self.ck.fail(self.rule, "trade", "the run could not be read as a transition system: %s %s" % (type(e).__name__, str(e)[:200]))
            return None
        self.m = m
        return m

    def true(self, what, ok, detail=""):
        self.ck.oblige(self.rule, what, ok, "" if ok else detail, self.m.where)

    def never(self, what, cond):
        c = tm.canon(cond)
        self.true(what, c is FALSE or c is BOT, "happens when " + tm.show(c, 6)[:500])

    def equal(self, what, cond, a, b):
        ok = self.m.eq(cond, a, b)
        self.true(what, ok, "" if ok else self.m.diff(cond, a, b))

    def same(self, what, cond, a, b, t):
        d = self.m.same(cond, a, b, t)
        self.true(what, d is None, d or "")

    def iff(self, what, cond, a, b):
        self.equal(what, cond, ite(a, ONE, ZERO), ite(b, ONE, ZERO))



def drop(t, cond):
    """The value of a term where cond holds, without the gates that cond settles
    when that leaves a single value."""
    vals = []

    def go(x):
        if x.op == "case":
            for c in x.a[1]:
                go(c)
        elif x is not BOT and x not in vals:
            vals.append(x)
    if t.op == "case":
        go(t)
        return vals[0] if len(vals) == 1 else t
    if t.op == "enum":
        tag = drop(t.a[1], cond)
        if tag.op == "num":
            w = int(tag.a[0])
            return tm.enum_val(t.a[0], w, tuple(drop(x, cond) for x in t.a[2][w]))
    if t.op == "agg":
        return tm.mk_agg(t.a[0], tuple(drop(x, cond) for x in t.a[1]))
    return t


def settle(t, cond):
    """Without the gates on exactly this condition (taken to hold)."""
    if cond.op != "case":
        return t
    test = cond.a[0]
    k = [i for i, c in enumerate(cond.a[1]) if c is TRUE]
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == "case":
            if x.a[0] is test and len(k) == 1:
                r = go(x.a[1][k[0]])
            else:
                r = tm.join(x.a[0], [go(c) for c in x.a[1]])
        elif x.op == "enum":
            r = tm.mk_enum(x.a[0], go(x.a[1]), tuple(None if p is None else tuple(go(c) for c in p) for p in x.a[2]))
        elif x.op == "agg":
            r = tm.mk_agg(x.a[0], tuple(go(c) for c in x.a[1]))
        else:
            r = x
        memo[x] = r
        return r
    return go(t)
