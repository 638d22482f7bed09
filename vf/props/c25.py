"""C25: a failing upstream request fails the call that needed it.

Awaiting is summarised like calling: a request is an unknown that succeeds or
fails. Every method of the client yields the parsed body exactly where sending,
the check of the status and parsing all succeeded, and the error otherwise; the
handlers answer exactly where all of their requests succeeded. No request is
sent anywhere else."""
import re
from .. import models, terms as tm, twin
from ..calls import Graph
from ..prog import Anchor
from . import runs

CHECKED = "the status decides before the body is used"
SENT = "requests are sent by the client's methods only"
ANSWER = "answers exactly when every request succeeded"
ERROR = "a failure is answered with an error status"
METHODS = ("get_exchange_info", "list_candles", "list_candles_fill_missing_with_none", "list_candle_intervals", "map_asset_prices")


def http(t):
    """Which client object sends a request does not matter."""
    m = {}
    for x in runs.every(t, lambda x: x.op == "op" and str(x.a[0]).startswith("call:reqwest::Client::") and x.a[1]):
        if not str(x.a[0]).endswith(("::new", "::default")):
            m[x] = tm.mk("op", x.a[0], (tm.sym("http"),) + x.a[1][1:])
    return tm.replace(t, m) if m else t


def outcome(prog):
    """When there is an answer, whatever the requests were for."""
    kinds = ("Client::get_exchange_info", "Client::list_candles", "Client::map_asset_prices")

    def f(t):
        t = tm.tag_of(t, models.RESULT)
        m = {x: tm.mk("op", "all_ok", (tm.sym("some"),)) for x in runs.every(t, lambda x: x.op == "op" and x.a[0] == "all_ok" and requests(x))}
        t = tm.replace(t, m) if m else t
        m = {x: tm.sym(k) for k in kinds for x in runs.calls(prog, t, k)}
        return tm.replace(t, m) if m else t

    def requests(x):
        """Nothing but the outcomes of requests for candles."""
        a = x.a[1][0]
        a = a.a[1][2] if a.op == "op" and a.a[0] == "tab" else a.a[1][0] if a.op == "op" and a.a[0] == "repeat" else a
        return a.op == "op" and a.a[0] == "await" and a.a[1][0] in runs.calls(prog, a, kinds[1])
    return f


def run(ck):
    prog = ck.load("clients", "optimize")
    ck.floor(CHECKED, 5)
    ck.floor(SENT, 1)
    ck.floor(ANSWER, 2)
    ck.floor(ERROR, 1)
    covered = set()
    for n in METHODS:
        fs = [f for f in prog.fns.values() if f.crate == "juno" and f.name == n and f.j.get("async")]
        if len(fs) != 1:
            raise Anchor(n)
        twin.compare(ck, n, fs[0], runs.spec(prog, "spec_" + n, "spec_clients"), rule=CHECKED, awaited=True, canon=http)
        covered |= {fs[0].id}
        r = ck.summary(fs[0], awaited=True, inline_dyn=True)
        covered |= ck.last.stats["bodies"]
    g = Graph(prog)
    for fid in sorted(prog.fns):
        f = prog.fns[fid]
        if f.crate.startswith("spec_"):
            continue
        for s in g.sites[fid]:
            if s.name.startswith("reqwest::") and s.name.split("::")[-1] in ("send", "execute", "get"):
                ck.oblige(SENT, "%s in %s" % (s.name, f.path), fid in covered, "not part of a checked method", s.span)
    for name, sp in (("backtest", "backtest::spec_post"), ("optimize", "spec_optimize_post")):
        twin.compare(ck, name, runs.handler(prog, name), runs.spec(prog, sp), rule=ANSWER, awaited=True, opaque=runs.unknown(prog), canon=outcome(prog))
    status(ck, prog)


def status(ck, prog):
    """The answer for an error is one with an error status."""
    fs = [f for f in prog.fns.values() if f.crate == "juno_axum" and f.name == "into_response" and f.locals[1][0] == "adt" and f.locals[1][1].endswith("error::Error")]
    if len(fs) != 1:
        raise Anchor("into_response of Error")
    r = ck.summary(fs[0], inline_dyn=True)
    if r is None:
        ck.fail(ERROR, "into_response", "never returns", fs[0].span)
        return
    codes = set()
    for x in runs.every(r[0], lambda x: x.op == "agg" and x.a[0][0] == "adt" and x.a[0][1].endswith("StatusCode")):
        for y in runs.every(x, lambda y: y.op in ("lit", "num", "sym", "proj", "op")):
            m = re.match(r"Scalar\(0x([0-9a-f]+)\)$", y.a[1]) if y.op == "lit" and len(y.a) > 1 and isinstance(y.a[1], str) else None
            codes.add(int(m.group(1), 16) if m else int(y.a[0]) if y.op == "num" else None)
    ck.oblige(ERROR, "into_response", bool(codes) and all(c is not None and 400 <= c < 600 for c in codes),
              "status %s" % (", ".join(map(str, codes)) or "unknown"), fs[0].span)
