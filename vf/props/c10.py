"""Every indicator is driven over an arbitrary series with arbitrary (valid)
periods, and so is its definition (spec/indicators.rs), which is stated over the
series: which values enter, with which weights, from which position on.  A
composed indicator is defined over its component indicators, which stay
uninterpreted (each is decided on its own).  The dataflow value summaries (loops
become recurrences; counters are put in closed form) have to be the same term."""
from .. import twin


def run(ck):
    prog = ck.load("indicators")
    ck.floor("agrees with its definition", 15)
    ck.assumptions += ["floating point arithmetic is read as exact real arithmetic",
                       "counters do not overflow (series shorter than 2^32)"]
    for name, fi, fs in twin.pairs(prog, "spec_indicators"):
        if name.startswith("mat_"):
            continue
        own = name.split("_")[0]
        # what an indicator is composed of is uninterpreted: decided on its own
        twin.compare(ck, name, fi, fs, opaque=components(prog, own))


def components(prog, own):
    out = set()
    for f in prog.fns.values():
        p = f.id.split("::")
        if p[:2] == ["juno", "indicators"] and len(p) > 3 and p[2] != own and f.name != "new":
            out.add(f.id)
    return out
