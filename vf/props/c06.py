"""Both the code and a definition of every stop loss (spec/stops.rs) are driven
through the public interface by the same symbolic scenario: an arbitrary prior
history of updates and clears, the entry candle (update, clear), an arbitrary
series of candles, a last candle.  A forward dataflow analysis over MIR computes
a value summary of each (loops become recurrences over the series); the rule is
that the summaries of code and definition are the same canonical term, for all
parameters, histories and candles at once (floats read as reals)."""
from .. import twin


def run(ck):
    prog = ck.load("stops")
    ck.floor("agrees with its definition", 5)
    ck.assumptions += ["floating point arithmetic is read as exact real arithmetic"]
    for name, fi, fs in twin.pairs(prog, "spec_stops"):
        if name.startswith("sl_"):
            twin.compare(ck, name, fi, fs)
