"""The order amounts recorded by one pass of the candle loop (read as a
transition system, props/trade.py) and at the end of the run, field by field,
against the formulas of spec/trade.rs: opening from the balance that is left
after closing, closing from the record of opening; the run ends early exactly
when the size of a wanted order rounds to zero."""
from .. import terms as tm
from ..terms import ite, and_, or_, not_, proj, num, BOT, FALSE, ZERO, ONE, cmp
from ..models import is_v, payload, OPTION
from . import trade
from .c01 import positions


def run(ck):
    rule = "order amounts"
    ck.floor(rule, 12)
    cl = trade.Clauses(ck, rule)
    m = cl.model()
    if m is None:
        return
    (raw, (S1, SL1, TP1, _)) = m.call("observe", m.S, m.SL, m.TP, m.candle)
    ev, _ = m.call("effective", m.PREV, raw)
    A = tm.fields_of(ev, ("tuple", 2), 2)[0]
    wants, _ = m.call("entry", A, "input")
    wl, ws = tm.fields_of(wants, ("tuple", 2), 2)
    for s in trade.steps(m):
        n = trade.NAME[s.which] + ": "
        closing(cl, s, n, s.closes_long, s.closes_short, m.time, m.price)
        b = s.balance()
        lo, _ = m.call("long_order", b, m.price, "input")
        so, _ = m.call("short_order", b, m.price, "input")
        ok = or_(and_(wl, is_v(lo, OPTION, 1)), and_(and_(ws, not_(wl)), is_v(so, OPTION, 1)))
        want = and_(s.flat, or_(wl, ws))
        if s.which == "go":
            e, ft = payload(lo, OPTION, 1), fill_t(m, s.OL)
            cl.same(n + "amounts of a long order", s.is_long, s.field(s.new(True), s.OL, "fills"), s.field(e, s.OL, "fills"), ft)
            e, ft = payload(so, OPTION, 1), fill_t(m, s.OS)
            o = s.new(False)
            cl.same(n + "amounts of a short order", s.is_short, s.field(o, s.OS, "fills"), s.field(e, s.OS, "fills"), ft)
            for f in ("borrowed", "collateral"):
                cl.equal(n + f + " of a short order", s.is_short, s.field(o, s.OS, f), s.field(e, s.OS, f))
            cl.never(n + "an order whose size rounds to zero is not placed", and_(want, not_(ok)))
        else:
            cl.never(n + "an order of some size does not end the run", and_(want, ok))
    s = trade.Step(m, "go")
    some = and_(s.held, cmp("ge", m.len, ONE, True))
    last = m.subst(ite(not_(m.present), positions(m), BOT))
    s.rec = trade.map_leaves(ite(some, last, BOT), lambda l: l.a[1][1] if l.op == "op" and l.a[0] == "push" else BOT)
    price, time = m.last_candle()
    time = tm.mk_agg(("adt", m.TS), (time,))
    closing(cl, s, "end: ", and_(some, s.was_long), and_(some, s.was_short), time, price)


def fill_t(m, adt):
    i = m.prog.field_index(adt, "fills")
    ad = m.prog.adts[adt]
    return m.prog.ty(ad["crate"], ad["v"][0]["f"][i]["t"])


def closing(cl, s, n, cl_long, cl_short, time, price):
    m = s.m
    f, _ = m.call("long_close", s.old(True), price, "input")
    cl.same(n + "amounts of closing a long", cl_long, s.fill(s.long_rec(), s.LP, "close_fills"), f, s.FILL)
    f, _ = m.call("short_close", s.old(False), time, price, "input")
    cl.same(n + "amounts of closing a short", cl_short, s.fill(s.short_rec(), s.SP, "close_fills"), f, s.FILL)
