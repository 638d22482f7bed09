"""As for stop losses: code and definition of every take profit (spec/stops.rs)
are driven by the same symbolic scenario and their dataflow value summaries must
be the same canonical term.  The indicators the trending kind feeds on are left
uninterpreted (they are decided by the indicator checks)."""
from .. import twin


def run(ck):
    prog = ck.load("stops")
    ck.floor("agrees with its definition", 4)
    ck.assumptions += ["floating point arithmetic is read as exact real arithmetic"]
    ops = {f.id for f in prog.fns.values() if f.path.startswith("juno::indicators::")}
    for name, fi, fs in twin.pairs(prog, "spec_stops"):
        if name.startswith("tp_"):
            twin.compare(ck, name, fi, fs, opaque=ops)
