"""Indicators: each is driven over an arbitrary series with arbitrary valid
periods; its mature flag, as a value summary over the number of updates (counters
are put in closed form), has to be `updates >= announced` with the announced
number of its definition.  Strategies: mature has to be `updates >= announced`
for the counted ones, and for those built on components that see every candle the
conjunction of the components' flags with the maximum of their announced numbers
(which is the same statement, given it for the components)."""
from .. import twin
from .c09 import TWO, opaque


def run(ck):
    prog = ck.load("indicators", "strategies")
    ck.floor("mature exactly from the announced update on", 26)
    ck.assumptions += ["counters do not overflow (series shorter than 2^32)"]
    rule = "mature exactly from the announced update on"
    for name, fi, fs in twin.pairs(prog, "spec_indicators"):
        if name.startswith("mat_"):
            twin.compare(ck, name[4:], fi, fs, rule=rule)
    for name, fi, fs in twin.pairs(prog, "spec_strategies"):
        twin.compare(ck, "strategy " + name, fi, fs, rule=rule, parts=(2, 3) if name in TWO else (1, 2), opaque=opaque(prog, name))
