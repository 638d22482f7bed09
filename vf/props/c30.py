"""merge_adjacent_spans, generate_missing_spans and page against definitions
over arbitrary lists of spans and arbitrary ranges (spec/filters.rs): the
returned lists must have the same value summary (recurrences over the spans or
pages)."""
from . import c08


def run(ck):
    c08.run(ck, "span_", 3)
