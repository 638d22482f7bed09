"""C13: what evaluating a population writes, and that threads do not matter.

The map from a population to the evaluated population is summarised and agrees
with its definition: every individual, and only its fitness, from its own
chromosome. The summary treats a parallel iteration as its sequential one, which
is justified by an effect analysis of everything the evaluation can reach: it
neither reads nor writes anything but what it is given, through no shared
mutable state."""
from .. import twin
from ..calls import Graph
from ..prog import Anchor
from . import c12, runs

RULE = "agrees with its definition"


def run(ck):
    prog = ck.load("optimize")
    ck.floor(RULE, 1)
    entries = [f.id for f in prog.fns.values() if f.crate == "juno" and "BasicEvaluation" in f.path and f.name == "evaluate"]
    if not entries:
        raise Anchor("BasicEvaluation::evaluate")
    twin.compare(ck, "evaluate", runs.spec(prog, "impl_evaluate"), runs.spec(prog, "spec_evaluate"), rule=RULE,
                 opaque=runs.unknown(prog, ("BasicEvaluation::new",)), canon=runs.conditions(prog))
    g = Graph(prog)
    made = c12.scan(ck, prog, g, g.reach(entries), set(), 150)
    for s in made:
        ck.fail("computes from its arguments alone", s.fn.path, "makes a random generator at " + s.span)
