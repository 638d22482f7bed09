"""One pass of the candle loop (read as a transition system, props/trade.py):
its new state and whether it goes on depend on the candles only through the one
at hand (no other index, and not on how many there are); every recorded fill has
that candle's close and end; strategy, stop loss and take profit have taken in
exactly that candle before they are asked.  The report's start, end and quote are
those of the input."""
from .. import terms as tm
from ..terms import ite, and_, or_, not_, proj, add, sub, num, BOT, FALSE, TRUE, ZERO, ONE, cmp
from . import trade


def run(ck):
    rule = "no look-ahead"
    ck.floor(rule, 18)
    cl = trade.Clauses(ck, rule)
    m = cl.model()
    if m is None:
        return
    (raw, (S1, SL1, TP1, _)) = m.call("observe", m.S, m.SL, m.TP, m.candle)
    (_, (SLc, TPc, _)) = m.call("restart", SL1, TP1, m.candle)
    for s in trade.steps(m):
        n = trade.NAME[s.which] + ": "
        # only the candle at hand
        other, howmany = [], []
        for p in list(m.init) + ["cond"]:
            v = s.cond if p == "cond" else ite(s.cond, s.st[p], BOT)
            if p == m.I:
                continue
            for t in trade.subterms(trade.settle(v, m.present)):
                if t.op == "proj" and t.a[0] is m.candles and t.a[1][0] == "ix" and t.a[1][1] is not m.I:
                    other.append(t)
                if t.op == "op" and t.a[0] == "len" and t.a[1][0] is m.candles:
                    howmany.append(t)
                if t is m.candles:
                    pass
        cl.true(n + "uses the candle at hand only", not other, "uses " + tm.show(other[0], 4) if other else "")
        cl.true(n + "does not depend on how many candles there are", not howmany)
        for long in (True, False):
            k = "long" if long else "short"
            c = s.closes_long if long else s.closes_short
            r = s.long_rec() if long else s.short_rec()
            adt = s.LP if long else s.SP
            cl.equal("%sa %s closes at the candle's close" % (n, k), c, s.field(s.fill(r, adt, "close_fills"), s.FILL[1], "price"), m.price)
            cl.equal("%sa %s closes at the candle's end" % (n, k), c, ms(m, s.field(r, adt, "close_time")), ms(m, m.time))
            c = s.is_long if long else s.is_short
            if s.which == "go":
                o = s.new(long)
                adt = s.OL if long else s.OS
                cl.equal("%sa %s opens at the candle's close" % (n, k), c, s.field(s.fill(o, adt, "fills"), s.FILL[1], "price"), m.price)
                cl.equal("%sa %s opens at the candle's end" % (n, k), c, ms(m, s.field(o, adt, "time")), ms(m, m.time))
        if s.which == "go":
            cl.equal(n + "the strategy takes in the candle once", s.cond, s.st[m.S], S1)
            for k, p, u, c in (("stop loss", m.SL, SL1, SLc), ("take profit", m.TP, TP1, TPc)):
                un, cn = tm.canon(inner(u)), tm.canon(inner(c))
                bad = []
                trade.map_leaves(tm.canon(ite(s.cond, inner(s.st[p]), BOT)), lambda l: bad.append(l) if l is not un and l is not cn else l or l)
                cl.true("%sthe %s takes in the candle once" % (n, k), not bad, "becomes " + tm.show(bad[0], 5)[:300] if bad else "")
        # whoever is asked has taken in the candle
        seen = {tm.canon(inner(x)) for x in (S1, SL1, TP1)}
        bad = []
        for p in list(m.init) + ["cond"]:
            v = s.cond if p == "cond" else ite(s.cond, s.st[p], BOT)
            for t in trade.subterms(tm.canon(v)):
                if t.op == "op" and str(t.a[0]).split("::")[-1] in ("advice", "upside_hit", "downside_hit"):
                    a = t.a[1][0]
                    a = a.a[0] if a.op in ("rv",) else a
                    if not any(x in seen for x in trade.subterms(a)):
                        bad.append(t)
        cl.true(n + "who is asked has taken in the candle", not bad, "asks " + tm.show(bad[0], 5)[:300] if bad else "")
    # the report
    rt = m.fn.locals[0][1]
    C = ("adt", m.spec["observe"].locals[4][1][1])
    ti = m.prog.field_index(C[1], "time")
    first = m.ev.typed(proj(proj(tm.select(m.candles, ZERO), ("f", C, 0, ti)), ("f", ("adt", m.TS), 0, 0)), ("uint", "u64"))
    lastc = tm.select(m.candles, sub(m.len, ONE))
    some = cmp("ge", m.len, ONE, True)

    def part(name):
        i = m.prog.field_index(rt, name)
        return proj(m.ret, ("f", ("adt", rt), 0, i))
    cl.equal("report: starts with the first candle", some, ms(m, part("start")), first)
    cl.equal("report: ends with the end of the last candle", some, ms(m, part("end")), ms(m, m.end_of(lastc, C, ti)))
    cl.true("report: carries the given quote", tm.show(part("quote"), 9) == "arg1.quote", tm.show(part("quote"), 5)[:200])


def ms(m, t):
    return proj(t, ("f", ("adt", m.TS), 0, 0))


def inner(b):
    return b.a[1][0] if b.op == "agg" and b.a[0][0] == "box" else proj(b, ("b",))
