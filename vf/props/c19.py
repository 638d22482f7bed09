"""The statistics of a position and of a run are compared with their definition
(spec/stats.rs): the value summaries over an arbitrary position and an arbitrary
list of positions (whose accumulation loop becomes a recurrence) are the same
term, field by field."""
from .. import twin


def run(ck):
    prog = ck.load("stats")
    rule = "agrees with its definition"
    ck.floor(rule, 2)
    ck.assumptions.append("floating point arithmetic is read as exact real arithmetic")
    for name, fi, fs in twin.pairs(prog, "spec_stats"):
        if name in ("position", "core"):
            twin.compare(ck, name, fi, fs, rule=rule)
