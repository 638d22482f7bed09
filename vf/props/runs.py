"""The places where simulated runs are started: training, reporting, backtest.

The two request handlers are summarised from the request they get to the answer
they give, with everything they call looked into but the operations below, each
of which is the subject of other properties or outside of this system."""
from .. import terms as tm, twin
from ..prog import Anchor

UNKNOWN = ("GeneticAlgorithm::<TE, TS, TC, TM, TR>::evolve", "trading::traders::trade", "statistics::Statistics::compose",
           "BasicEvaluation::new", "get_profit", "get_return_over_max_drawdown", "get_sharpe_ratio", "get_sortino_ratio",
           "Client::get_exchange_info", "Client::list_candles", "Client::map_asset_prices")


def spec(prog, name, crate="spec_optimize"):
    fs = [f for f in prog.fns.values() if f.crate == crate and f.path.endswith("::" + name)]
    if len(fs) != 1:
        raise Anchor(name)
    return fs[0]


def handler(prog, of):
    """The handler of the requests of a module of routes."""
    fs = [f for f in prog.fns.values() if f.crate == "juno_axum" and "::routes::" + of + "::" in f.path and f.j.get("async") and f.argc == 2
          and f.locals[2][0] == "adt" and f.locals[2][1].endswith("Json")]
    if len(fs) != 1:
        raise Anchor("handler of " + of)
    return fs[0]


def ids(prog, name):
    return {f.id for f in prog.fns.values() if not f.crate.startswith("spec_") and f.path.endswith(name)}


def unknown(prog, but=()):
    out = set()
    for u in UNKNOWN:
        if u not in but:
            i = ids(prog, u)
            if not i:
                raise Anchor(u)
            out |= i
    return out


def every(t, pred):
    """The subterms that satisfy pred."""
    seen, todo, found = set(), [t], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            found.append(x)
        todo += tm.children(x)
    return found


def calls(prog, t, name):
    ns = {"call:" + i for i in ids(prog, name)}
    return every(t, lambda x: x.op == "op" and x.a[0] in ns)


def callbacks(t):
    """What is announced while an evolution runs is not part of its answer."""
    found = every(t, lambda x: x.op == "fn")
    return tm.replace(t, {x: tm.sym("callback") for x in found}) if found else t


def struct(prog, name):
    ks = [k for k, a in prog.adts.items() if k.endswith("::" + name) and a.get("local")]
    if len(ks) != 1:
        raise Anchor("type " + name)
    return ks[0], [f["n"] for f in prog.adts[ks[0]]["v"][0]["f"]]


def erase(prog, t, what):
    """t without some of the fields of some types."""
    for name, fs in what:
        k, names = struct(prog, name)
        m = {}
        for x in every(t, lambda x: x.op == "agg" and x.a[0][0] == "adt" and x.a[0][1] == k):
            m[x] = tm.mk_agg(x.a[0], tuple(tm.sym("any " + n) if n in fs else v for n, v in zip(names, x.a[1])))
        t = tm.replace(t, m) if m else t
    return t


def last_arg(prog, t, names):
    """t without the interval statistics are computed with."""
    m = {}
    for n in names:
        for x in calls(prog, t, n):
            m[x] = tm.mk("op", x.a[0], x.a[1][:-1] + (tm.sym("any interval"),))
    return tm.replace(t, m) if m else t


WITH_INTERVAL = ("statistics::Statistics::compose", "get_sharpe_ratio", "get_sortino_ratio")


def conditions(prog):
    """Trading conditions that are the same for all runs are compared by C27."""
    def f(t):
        # from the inside out: prices are fetched, then runs made, then statistics
        t = erase(prog, callbacks(t), (("MapAssetPrices", ("interval",)), ("TradeInput", ("margin_multiplier", "long", "short"))))
        return last_arg(prog, t, WITH_INTERVAL)
    return f


def named(prog, x, name):
    """Field of a struct value."""
    return named_of(prog, x, x.a[0][1], name)


def named_of(prog, x, k, name):
    i = [f["n"] for f in prog.adts[k]["v"][0]["f"]].index(name)
    return tm.proj(x, ("f", ("adt", k), 0, i))


def plain(t):
    """A value, however it is referred to."""
    while True:
        if t.op in ("rv", "&", "deref") or t.op == "op" and t.a[0] in ("&", "rv", "deref") and len(t.a[1]) == 1:
            t = t.a[0] if t.op != "op" else t.a[1][0]
        elif t.op == "proj" and t.a[1] in ("deref", ("deref",), "*"):
            t = t.a[0]
        else:
            return t


class Run:
    """One simulated run: the parameters and the conditions it gets."""

    def __init__(self, prog, x):
        self.bad = []
        self.term = x
        self.params = plain(x.a[1][0])
        t = plain(x.a[1][1]) if len(x.a[1]) > 1 else tm.BOT
        k, names = struct(prog, "TradeInput")
        f = dict(zip(names, tm.fields_of(t, ("adt", k), len(names)) or ())) if t is not tm.BOT else {}
        self.field = {n: plain(v) for n, v in f.items()}
        self.source, self.symbol, keys = {}, None, {}
        for n, depth in (("candles", 2), ("fees", 1), ("filters", 1), ("borrow_info", 2)):
            v, ks = self.field.get(n, tm.BOT), []
            while v.op == "proj" and v.a[1][0] == "key" and len(ks) < depth:
                ks.append(plain(v.a[1][1]))
                v = plain(v.a[0])
            if len(ks) != depth:
                self.bad.append("%s: not looked up under the symbol: %s" % (n, tm.show(v, 3)[:120]))
                continue
            ks.reverse()
            keys[n], self.source[n] = ks, v
            if self.symbol is None:
                self.symbol = ks[0]
            elif ks[0] is not self.symbol:
                self.bad.append("%s of another symbol: %s instead of %s" % (n, tm.show(ks[0], 4)[:160], tm.show(self.symbol, 4)[:160]))
        self.asset = None
        if "borrow_info" in keys:
            s = tm.sym("the symbol")
            self.asset = tm.replace(keys["borrow_info"][1], {self.symbol: s, tm.mk("deref", self.symbol): s, tm.mk("rv", self.symbol): s})
        if "candles" in keys:
            i = self.interval(prog)
            if keys["candles"][1] is not i:
                self.bad.append("candles of the interval %s, the parameters have %s" % (tm.show(keys["candles"][1], 4)[:160], tm.show(i, 4)[:160]))

    def interval(self, prog):
        p = named_of(prog, self.params, struct(prog, "TradingParams")[0], "trader")
        return named_of(prog, p, struct(prog, "TraderParams")[0], "interval")


def runs_of(prog, t):
    return [Run(prog, x) for x in calls(prog, t, "traders::trade")]


class Stat:
    """One computation of statistics from a run."""

    def __init__(self, x):
        self.term = x
        self.of = plain(x.a[1][0])
        self.symbol, self.prices, self.interval = (plain(y) for y in x.a[1][1:4])


def stats_of(prog, t):
    return [Stat(x) for n in WITH_INTERVAL for x in calls(prog, t, n)]
