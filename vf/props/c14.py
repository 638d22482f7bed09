"""C14: what one call of `evolve` does, and what crossover and mutation do to
the chromosomes, for every evaluation, selection, reinsertion and seed.

Selection, reinsertion, evaluation and the chromosome's own operations are
unknown functions here (with unknown effects on everything they may write),
so the comparison settles the order and the arguments of all calls, the
pairing, the generation numbers and what is reported."""
from .. import copies, twin
from .. import terms as tm

RULE = "agrees with its definition"


def durations(t):
    """Measured times are not part of the outcome."""
    seen, todo, clocks = set(), [t], {}
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym" and str(x.a[0]).startswith("default:") and str(x.a[0]).endswith("time::Duration"):
            clocks[x] = tm.sym("clock")
        todo += tm.children(x)
    return tm.replace(t, clocks) if clocks else t


def run(ck):
    prog = ck.load("genetics")
    copies.check(ck)
    ck.floor(RULE, 3)
    for name, fi, fs in twin.pairs(prog, "spec_genetics"):
        if not name.startswith(("select_", "reinsert_")):
            twin.compare(ck, name, fi, fs, rule=RULE, canon=durations)
