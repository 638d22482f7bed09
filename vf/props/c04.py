"""One pass of the candle loop (read as a transition system, props/trade.py)
against the rules of spec/trade.rs, for arbitrary strategy, stop loss and take
profit: what counts as advice is the change of advice; when a position is closed
and why; when one is opened and which; when stop loss and take profit are
restarted."""
from .. import terms as tm
from ..terms import ite, and_, or_, not_, proj, num, BOT, FALSE, ZERO, ONE
from ..models import is_v, payload, OPTION
from . import trade
from .c03 import inner


def run(ck):
    rule = "advice and exits"
    ck.floor(rule, 13)
    cl = trade.Clauses(ck, rule)
    m = cl.model()
    if m is None:
        return
    (raw, (S1, SL1, TP1, _)) = m.call("observe", m.S, m.SL, m.TP, m.candle)
    (_, (SLc, TPc, _)) = m.call("restart", SL1, TP1, m.candle)
    ev, _ = m.call("effective", m.PREV, raw)
    A, remembered = tm.fields_of(ev, ("tuple", 2), 2)
    cl.true("no advice is remembered at the start",
            m.init[m.PREV].op == "enum" and tm.tag_of(m.init[m.PREV], m.ADVICE) is num([v["n"] for v in m.prog.adts[m.ADVICE]["v"]].index("None")))
    why, _ = m.call("exit", m.O, A, SL1, TP1)
    closes = is_v(why, OPTION, 1)
    reason = payload(why, OPTION, 1)
    wants, _ = m.call("entry", A, "input")
    wl, ws = tm.fields_of(wants, ("tuple", 2), 2)
    for s in trade.steps(m):
        n = trade.NAME[s.which] + ": "
        cl.iff(n + "a position is closed when and only when it has to be", s.cond, s.closes, closes)
        for long in (True, False):
            c = s.closes_long if long else s.closes_short
            r = s.long_rec() if long else s.short_rec()
            cl.equal("%sthe reason for closing a %s" % (n, "long" if long else "short"), c,
                     tm.tag_of(s.field(r, s.LP if long else s.SP, "close_reason"), m.REASON), tm.tag_of(reason, m.REASON))
        flat = and_(s.cond, or_(not_(s.held), closes))
        if s.which == "go":
            cl.equal(n + "the advice remembered", s.cond, tm.tag_of(s.st[m.PREV], m.ADVICE), tm.tag_of(remembered, m.ADVICE))
            cl.iff(n + "a position is opened when advised and flat", flat, s.has2, or_(wl, ws))
            cl.iff(n + "a long is opened on advice to go long", and_(flat, s.has2), s.is_long, wl)
            for k, p, u, c in (("stop loss", m.SL, SL1, SLc), ("take profit", m.TP, TP1, TPc)):
                cl.equal("%sthe %s is restarted while flat and only then" % (n, k), s.cond, inner(s.st[p]), ite(flat, inner(c), inner(u)))
        else:
            cl.never(n + "the run ends early only by an order", and_(s.cond, not_(and_(flat, or_(wl, ws)))))
