"""C26: the data every run gets is that of its own symbol and interval.

The answers of both handlers are summarised down to the requests they make; a
run is a call of `trade` in them, or in the evaluation of a population."""
from .. import models, terms as tm, twin
from . import runs

FETCH = "fetched and stored under its own symbol and interval"
RUN = "runs on its own symbol's data"
STAT = "statistics of its own symbol and prices"
ANSWER = "agrees with its definition"


def answered(t):
    """The successful answer."""
    return models.payload(t, models.RESULT, 0)


def site(ck, prog, name, t, data, where):
    """Runs and statistics in t; data: the sources they must use, if known."""
    rs, ss = runs.runs_of(prog, t), runs.stats_of(prog, t)
    ck.oblige(RUN, name + ": there are runs", bool(rs), "", where)
    bad = [b for r in rs for b in r.bad]
    for n in ("candles", "fees", "filters", "borrow_info"):
        got = {r.source[n] for r in rs if n in r.source}
        want = data.get(n)
        if len(got) > 1 or want is not None and got != {want}:
            bad.append("%s taken from %s%s" % (n, " and ".join(sorted(tm.show(x, 4)[:160] for x in got)),
                                               " instead of " + tm.show(want, 4)[:160] if want is not None else ""))
    ck.oblige(RUN, name, not bad, "; ".join(sorted(set(bad))[:4]), where)
    bad = []
    for s in ss:
        r = [r for r in rs if r.term is s.of]
        if len(r) != 1:
            bad.append("statistics of something that is no run: " + tm.show(s.of, 3)[:160])
        elif r[0].symbol is not s.symbol:
            bad.append("statistics of symbol %s for a run of %s" % (tm.show(s.symbol, 4)[:160], tm.show(r[0].symbol, 4)[:160]))
        if data.get("prices") is not None and s.prices is not data["prices"]:
            bad.append("prices taken from " + tm.show(s.prices, 4)[:160])
    ck.oblige(STAT, name, not bad and bool(ss), "; ".join(sorted(set(bad))[:4]) or "no statistics", where)


def sources(prog, info, candles, prices):
    k = runs.struct(prog, "ExchangeInfo")[0]
    out = {n: runs.named_of(prog, info, k, n) for n in ("fees", "filters", "borrow_info")}
    return dict(out, candles=candles, prices=prices)


def inputs(prog, t):
    """What the training evaluation is made from: field -> value."""
    xs = runs.calls(prog, t, "BasicEvaluation::new")
    if len(xs) != 1:
        return None
    v = runs.plain(xs[0].a[1][0])
    k, names = runs.struct(prog, "BasicEvaluationInput")
    fs = tm.fields_of(v, ("adt", k), len(names))
    return dict(zip(names, (runs.plain(f) for f in fs))) if fs else None


def run(ck):
    prog = ck.load("optimize")
    ck.floor(FETCH, 3)
    ck.floor(RUN, 6)
    ck.floor(STAT, 3)
    ck.floor(ANSWER, 1)
    conditions = runs.conditions(prog)
    kw = {"awaited": True, "opaque": runs.unknown(prog), "inline_dyn": True}
    fb = runs.handler(prog, "backtest")
    kt = dict(kw)
    kt.pop("inline_dyn")
    twin.compare(ck, "backtest", fb, runs.spec(prog, "backtest::spec_post"), rule=ANSWER, canon=lambda t: conditions(answered(t)), **kt)
    for name, fn, data in (("backtest", fb, "backtest::spec_data"), ("optimize", runs.handler(prog, "optimize"), "spec_optimize_data")):
        r = ck.summary(fn, **kw)
        d = ck.summary(runs.spec(prog, data), **kw)
        if r is None or d is None:
            ck.fail(RUN, name, "never returns", fn.span)
            continue
        t, d = conditions(answered(r[0])), conditions(answered(d[0]))
        want = sources(prog, *(tm.proj(d, ("f", ("tuple", 4), 0, i)) for i in range(3)))
        site(ck, prog, name, t, want, fn.span)
        if name == "optimize":
            i = inputs(prog, t)
            if i is None:
                ck.fail(FETCH, "training", "the training data could not be determined", fn.span)
                continue
            for j, n in enumerate(("exchange_info", "candles", "prices", "symbols")):
                w = runs.plain(tm.proj(d, ("f", ("tuple", 4), 0, j)))
                g = i[n]
                ck.oblige(FETCH, "training: " + n, tm.same(tm.canon(g), tm.canon(w)), twin.diff(tm.canon(g), tm.canon(w)), fn.span)
    fe = runs.spec(prog, "impl_evaluate")
    kw = {"opaque": runs.unknown(prog, ("BasicEvaluation::new",)), "inline_dyn": True}
    r = ck.summary(fe, **kw)
    if r is None:
        ck.fail(RUN, "evaluate", "never returns", fe.span)
        return
    k = runs.struct(prog, "BasicEvaluationInput")[0]
    f = {n: runs.plain(runs.named_of(prog, tm.sym("arg0"), k, n)) for n in ("exchange_info", "candles", "prices")}
    t = twin.written(fe, r)
    rs = runs.runs_of(prog, t)
    infos = {x.a[0] for q in rs for n, x in q.source.items() if n != "candles" and x.op == "proj"}
    ok = len(infos) == 1 and runs.plain(next(iter(infos))) is f["exchange_info"]
    ck.oblige(RUN, "evaluate: the exchange information it is given", ok, ", ".join(tm.show(x, 3) for x in infos), fe.span)
    site(ck, prog, "evaluate", t, {"candles": f["candles"], "prices": f["prices"]}, fe.span)
