"""C28: what an optimisation answers, for every evolution it may get."""
from .. import copies, terms as tm, twin
from . import c26, runs

RULE = "agrees with its definition"


def run(ck):
    prog = ck.load("optimize")
    copies.check(ck)
    ck.floor(RULE, 1)
    conditions = runs.conditions(prog)

    def canon(t):
        """How the evolution is made and where the data comes from are not the answer's concern."""
        t = c26.answered(t)
        m = {}
        for x in runs.calls(prog, t, "BasicEvaluation::new"):
            for y in runs.every(x, lambda y: y.op == "agg" and y.a[0][0] == "adt" and y.a[0][1].endswith("::BasicEvaluationInput")):
                for n in ("exchange_info", "candles", "prices"):
                    v = runs.plain(runs.named(prog, y, n))
                    if v.op not in ("num", "case"):
                        m[v] = tm.sym("gathered " + n)
        t = tm.replace(t, m) if m else t
        m = {}
        for x in runs.calls(prog, t, "::evolve"):
            m[x] = tm.mk("op", x.a[0], (tm.sym("algorithm"),) + x.a[1][1:])
        return conditions(tm.replace(t, m) if m else t)

    twin.compare(ck, "optimize", runs.handler(prog, "optimize"), runs.spec(prog, "spec_optimize_post"), rule=RULE, awaited=True,
                 opaque=runs.unknown(prog), canon=canon)
