"""The candle loop of `trade` is read as a transition system (props/trade.py).
Obligations on one pass, under every gate and for arbitrary strategy, stop loss
and take profit: the list of reported positions stays or grows by one; it grows
only while a position is open, by the record carrying exactly what that position
was opened with; an open position is kept unless it is reported; a new one
appears only when none is left open.  After the loop: a position still open is
reported as cancelled at the last processed candle, and nothing else changes."""
from .. import terms as tm
from ..terms import ite, and_, or_, not_, proj, num, add, sub, BOT, FALSE, ZERO, ONE, TRUE, cmp
from ..models import is_v, payload, OPTION
from . import trade


def run(ck):
    rule = "position lifecycle"
    ck.floor(rule, 20)
    cl = trade.Clauses(ck, rule)
    m = cl.model()
    if m is None:
        return
    cl.true("no position is open at the start", tm.tag_of(m.init[m.O], OPTION) is ZERO)
    for s in trade.steps(m):
        n = trade.NAME[s.which] + ": "
        cl.true(n + "the report stays or grows by one", not s.odd, "the report becomes " + tm.show(s.odd[0], 4)[:300] if s.odd else "")
        record(cl, s, n, s.closes, s.rec, m.O)
        keep = and_(and_(s.cond, s.held), not_(s.closes))
        cl.same(n + "what is open stays as it is unless reported", keep, s.O2, m.O, m.spec["exit"].locals[1][1])
        if s.which == "stop":
            cl.never(n + "nothing is left open by an order that ends the run", s.opened)
    # after the loop
    pos = positions(m)
    end = not_(m.present)
    O, P = m.O, m.P
    held = is_v(O, OPTION, 1)
    last = m.subst(ite(end, pos, BOT))
    odd = []

    def pushed(leaf):
        if leaf is P:
            return FALSE
        if leaf.op == "op" and leaf.a[0] == "push" and leaf.a[1][0] is P:
            return TRUE
        odd.append(leaf)
        return TRUE
    some = and_(held, cmp("ge", m.len, ONE, True))
    none = not_(held)
    x = trade.map_leaves(ite(or_(some, none), last, BOT), pushed)
    cl.true("end: the report stays or grows by one", not odd, "the report becomes " + tm.show(odd[0], 4)[:300] if odd else "")
    cl.iff("end: exactly an open position is reported", or_(some, none), x, held)
    rec = trade.map_leaves(ite(some, last, BOT), lambda l: l.a[1][1] if l.op == "op" and l.a[0] == "push" else BOT)
    s = trade.Step(m, "go")
    s.rec = rec
    record(cl, s, "end: ", some, rec, O)
    CANC = [v["n"] for v in m.prog.adts[m.REASON]["v"]].index("Cancelled")
    price, time = m.last_candle()
    for long in (True, False):
        c = and_(some, s.was_long if long else s.was_short)
        adt = s.LP if long else s.SP
        r = s.long_rec() if long else s.short_rec()
        k = "end: %s is reported as cancelled" % ("a long" if long else "a short")
        cl.equal(k, c, tm.tag_of(s.field(r, adt, "close_reason"), m.REASON), num(CANC))
        k = "end: %s closes with the last candle" % ("a long" if long else "a short")
        cl.equal(k, c, proj(s.field(r, adt, "close_time"), ("f", ("adt", m.TS), 0, 0)), time)
        k = "end: %s closes at the last close" % ("a long" if long else "a short")
        cl.equal(k, c, s.field(s.fill(r, adt, "close_fills"), s.FILL[1], "price"), price)
    # stopped early
    early = m.early
    e = trade.Step(m, "stop")
    cl.equal("stopped early: nothing more is reported", and_(early, not_(e.has2)), pos, m.exit[P])


def positions(m):
    rt = m.fn.locals[0]
    i = m.prog.field_index(rt[1], "positions")
    return proj(m.ret, ("f", ("adt", rt[1]), 0, i))


def record(cl, s, n, closes, rec, O):
    m = s.m
    cl.never(n + "only an open position is reported", and_(closes, not_(s.held)))
    c = and_(closes, s.held)
    cl.equal(n + "a long is reported as a long, a short as a short", c, tm.tag_of(rec, m.POS),
             ite(s.was_long, num(m.LONG), num(m.SHORT)))
    for long, names in ((True, (("open_time", "time"), ("open_fills", "fills"))),
                        (False, (("open_time", "time"), ("open_fills", "fills"), ("collateral", "collateral"), ("borrowed", "borrowed")))):
        adt = s.LP if long else s.SP
        oadt = s.OL if long else s.OS
        r = s.long_rec() if long else s.short_rec()
        cc = and_(c, s.was_long if long else s.was_short)
        for a, b in names:
            i = m.prog.field_index(adt, a)
            ad = m.prog.adts[adt]
            t = m.prog.ty(ad["crate"], ad["v"][0]["f"][i]["t"])
            cl.same("%s%s of a %s is what it was opened with" % (n, a, "long" if long else "short"), cc,
                    s.field(r, adt, a), s.field(s.old(long), oadt, b), t)
