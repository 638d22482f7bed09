"""C27: the conditions runs are made under, compared between the three places.

Fitness (the evaluation of a population), reported statistics (the answer of an
optimisation) and backtests each call `trade`; what these calls are given is
extracted from the summaries and must agree. The values themselves are free."""
from .. import terms as tm, twin
from . import c26, runs

SAME = "the same at every place"
ONE = "the same for every run of a place"
QUOTE = "starts with the quote asked for"


def run(ck):
    prog = ck.load("optimize")
    ck.floor(SAME, 5)
    ck.floor(ONE, 3)
    ck.floor(QUOTE, 4)
    kw = {"awaited": True, "opaque": runs.unknown(prog), "inline_dyn": True}
    places = []
    for name in ("backtest", "optimize"):
        fn = runs.handler(prog, name)
        r = ck.summary(fn, **kw)
        if r is not None:
            places.append((name, fn, c26.answered(r[0])))
    fe = runs.spec(prog, "impl_evaluate")
    r = ck.summary(fe, opaque=runs.unknown(prog, ("BasicEvaluation::new",)), inline_dyn=True)
    if r is not None:
        places.append(("evaluate", fe, twin.written(fe, r)))
    found = {}
    where = ", ".join(fn.span for _, fn, _ in places)
    for name, fn, t in places:
        rs, ss = runs.runs_of(prog, t), runs.stats_of(prog, t)
        f = {n: {r.field.get(n) for r in rs} for n in ("margin_multiplier", "long", "short")}
        f["borrowed asset"] = {r.asset for r in rs}
        f["interval of statistics"] = {s.interval for s in ss}
        f["kind of data"] = {tuple(sorted((n, kind(x)) for n, x in r.source.items())) for r in rs}
        quote = {r.field.get("quote") for r in rs}
        bad = [n for n, v in list(f.items()) + [("quote", quote)] if len(v) != 1 or None in v]
        ck.oblige(ONE, name, not bad, "differs between runs or could not be determined: " + ", ".join(bad), fn.span)
        bad = sorted({b for r in rs for b in r.bad if b.startswith("candles of the interval")})
        ck.oblige("candles of the interval of its parameters", name, not bad, "; ".join(bad)[:300], fn.span)
        for n, v in f.items():
            found.setdefault(n, []).append((name, v))
        q = asked(prog, name, fn)
        ck.oblige(QUOTE, name, quote == {q}, "%s instead of %s" % (", ".join(tm.show(x, 3) for x in quote if x is not None), tm.show(q, 3)), fn.span)
        if name == "optimize":
            i = c26.inputs(prog, t)
            ck.oblige(QUOTE, "training", i is not None and i["quote"] is q, tm.show(i["quote"], 3) if i else "could not be determined", fn.span)
        if name != "evaluate":
            k, names = runs.struct(prog, "MapAssetPrices")
            got = {runs.named(prog, x, "interval") for x in runs.every(t, lambda x: x.op == "agg" and x.a[0] == ("adt", k))}
            found["interval of statistics"].append(("prices fetched for " + name, got))
    for n, vs in found.items():
        ok = len(places) == 3 and all(v == vs[0][1] for _, v in vs) and len(vs[0][1]) == 1
        ck.oblige(SAME, n, ok, "; ".join("%s: %s" % (name, ", ".join(str(x) if isinstance(x, tuple) else tm.show(x, 3) if x is not None else "?" for x in v)) for name, v in vs)[:600], where)


def kind(x):
    """What sort of data a source is: the field it is taken from."""
    if x.op == "proj" and x.a[1][0] == "f" and x.a[1][1][0] == "adt":
        n = tm.FIELD(x.a[1])
        if n in ("fees", "filters", "borrow_info"):
            return n
    return "data"


def asked(prog, name, fn):
    if name == "evaluate":
        return runs.named_of(prog, tm.sym("arg0"), runs.struct(prog, "BasicEvaluationInput")[0], "quote")
    j = fn.locals[2]
    inner = tm.proj(tm.sym("arg1"), ("f", ("adt", j[1]), 0, 0))
    return runs.named_of(prog, inner, j[2][0][1], "quote")
