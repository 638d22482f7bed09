"""BufferedCandle is driven over an arbitrary series of candles for arbitrary
intervals, next to a definition of aggregation (spec/filters.rs); the list of
emitted candles must have the same value summary (one recurrence over the
series whose state is the candle being built)."""
from . import c08


def run(ck):
    c08.run(ck, "buffer_", 1)
