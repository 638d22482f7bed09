"""One pass of the candle loop (read as a transition system, props/trade.py):
the balance plus the cash tied up in the open position is E(Q, O).  E starts as
the given quote and a pass changes it by exactly the profit of the position it
reports (computed by the code's own profit() from the reported record), in every
case; opening and closing change the balance by the recorded fill."""
from .. import terms as tm
from ..terms import ite, and_, or_, not_, add, sub, BOT, FALSE, ZERO
from ..models import OPTION
from . import trade


def run(ck):
    rule = "cash is conserved"
    ck.floor(rule, 8)
    cl = trade.Clauses(ck, rule)
    m = cl.model()
    if m is None:
        return
    cl.true("the run starts with the given quote", tm.show(m.init[m.Q], 9) == "arg1.quote" and tm.tag_of(m.init[m.O], OPTION) is ZERO)
    for s in trade.steps(m):
        n = trade.NAME[s.which] + ": "
        t0, _ = m.call("tied", m.O)
        t1, _ = m.call("tied", s.O2)
        lp, _ = m.call("long_profit", s.long_rec())
        sp, _ = m.call("short_profit", s.short_rec())
        gain = ite(s.closes_long, lp, ite(s.closes_short, sp, ZERO))
        for k, c in (("nothing closed", and_(s.cond, not_(s.closes))), ("long closed", s.closes_long), ("short closed", s.closes_short)):
            g = {"nothing closed": ZERO, "long closed": lp, "short closed": sp}[k]
            cl.equal(n + "balance and tied cash change by the reported profit (%s)" % k, c,
                     sub(add(s.Q2, t1), add(m.Q, t0)), g)
        cl.equal(n + "without opening or closing the balance stays", and_(s.cond, and_(not_(s.closes), not_(s.opened))), s.Q2, m.Q)
        b = s.balance()
        cl.equal(n + "closing adds the recorded proceeds", and_(s.closes, not_(s.has2)), s.Q2, b)
        if s.which == "go":
            cl.true("passes that close and that open exist", s.closes is not FALSE and s.is_long is not FALSE and s.is_short is not FALSE)
