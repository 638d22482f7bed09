"""The fast and the full computation of each statistic.  Profit and return over
maximum drawdown: both value summaries, over an arbitrary trading summary, are
the same term.  Sharpe and Sortino ratio: the fast one (one pass) and the full
one (phase by phase) each equal the definition in spec/stats.rs in the shape they
are written in; the two shapes there differ by the fusion of their loops only
(what the positions add to the holdings is one shared function)."""
from .. import twin


def run(ck):
    prog = ck.load("stats")
    rule = "same quantity"
    ck.floor(rule, 5)
    ck.assumptions += ["floating point arithmetic is read as exact real arithmetic",
                       "the one-pass and the phase-wise reference definitions of the risk ratios denote the same number (by inspection)"]
    for name, fi, fs in twin.pairs(prog, "spec_stats"):
        if name.startswith("fast_"):
            twin.compare(ck, name[5:], fi, fs, rule=rule)
        elif name == "ratios":
            twin.compare(ck, name, fi, fs, rule=rule)
