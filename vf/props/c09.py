"""Every strategy is driven over an arbitrary candle series with arbitrary
parameters, and so is its rule (spec/strategies.rs), which is stated over the
series and the values of the indicators.  Indicators, filters and wrapped
strategies stay uninterpreted: both sides see the same calls on the same states,
so a call left out, made twice, made with another price component or made in
another order is a difference.  The dataflow value summaries of the advice have
to be the same term.  The strategy kind built for a tag is decided by the
construction table of the parameters."""
from .. import twin

# components that are not the advice: (mature, announced)
TWO = ("rsi", "stoch")


def run(ck):
    prog = ck.load("strategies")
    ck.floor("advises by its rule", 11)
    ck.assumptions += ["floating point arithmetic is read as exact real arithmetic",
                       "implementations of the MA, Strategy, Signal and Oscillator traits act on their own state only"]
    for name, fi, fs in twin.pairs(prog, "spec_strategies"):
        twin.compare(ck, name, fi, fs, rule="advises by its rule", parts=(0, 1) if name in TWO else (0,), opaque=opaque(prog, name))


def opaque(prog, own):
    """Indicators, filters and what a strategy is composed of."""
    out = set()
    for f in prog.fns.values():
        p = f.id.split("::")
        if p[0] != "juno":
            continue
        if p[1] in ("indicators", "utils") or p[1] == "strategies" and f.name == "construct":
            out.add(f.id)
        if own == "double_ma_stoch" and p[1] == "strategies" and p[2] in ("double_ma", "stoch"):
            out.add(f.id)
    return out
