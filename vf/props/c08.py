"""Each advice filter (changed, persistence, mid-trend, combination) is driven
over an arbitrary series of advices, for every level and policy, through its
public interface and next to a definition written from the property
(spec/filters.rs).  The value summaries of both (loops as recurrences over the
series) must be the same canonical term: filtered advice, previous advice,
age, and the announced maturities."""
from .. import twin


def run(ck, pre="advice_", n=5):
    prog = ck.load("filters")
    rule="agrees with its definition"
    ck.floor(rule, n)
    for name, fi, fs in twin.pairs(prog, "spec_filters"):
        if name.startswith(pre):
            twin.compare(ck, name[len(pre):], fi, fs, rule=rule)
