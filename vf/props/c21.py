"""Timestamp::floor / ceil and Interval::ceil, and the multiple rounding
underneath, against definitions in whole numbers (spec/filters.rs): largest
multiple not above, least one not below; weeks counted from the first Monday;
months through the calendar functions of the time crate, which are opaque.
Code and definition must have the same value summary for all arguments."""
from . import c08


def run(ck):
    c08.run(ck, "time_", 5)
