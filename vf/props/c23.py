"""Size and price filters against their definitions (spec/filters.rs), for all
limits, steps and amounts at once: a summary of each (gates on the same linear
tests, floor and remainder opaque) must be the same canonical term.  A limit or
step of zero is off in every function."""
from . import c08


def run(ck):
    c08.run(ck, "order_", 5)
