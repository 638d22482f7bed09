"""C15: every selection and reinsertion operator against its definition, for
every population, rate, size and generator state."""
from .. import copies, twin


RULE = "agrees with its definition"


def run(ck):
    prog = ck.load("genetics")
    copies.check(ck)
    ck.floor(RULE, 8)
    for name, fi, fs in twin.pairs(prog, "spec_genetics"):
        if name.startswith(("select_", "reinsert_")):
            twin.compare(ck, name, fi, fs, rule=RULE)
