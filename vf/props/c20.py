"""The value summaries of the risk ratios, for an arbitrary summary and price
table: every leaf is a finite constant or the very value a finiteness test on the
way has accepted, and the condition under which the computation returns at all
(its assertions) depends on nothing but the statistics interval."""
from .. import terms as tm
from ..terms import mk, tobool, TRUE


def run(ck):
    prog = ck.load("stats")
    rule = "every leaf is finite"
    ret = "returns for every shape of the returns"
    ck.floor(rule, 4)
    ck.floor(ret, 3)
    fns = {f.name: f for f in prog.fns.values() if f.crate == "spec_stats"}
    for n, outs in (("impl_ratios", {1: "sharpe_ratio", 2: "sortino_ratio"}),
                    ("impl_fast_sharpe_ratio", {None: "get_sharpe_ratio"}), ("impl_fast_sortino_ratio", {None: "get_sortino_ratio"})):
        try:
            r = ck.summary(fns[n], inline_dyn=True)
        except Exception as e:
            for s in outs.values():
                ck.fail(rule, s, "could not be summarised: %s %s" % (type(e).__name__, str(e)[:200]))
            continue
        where = ", ".join(sorted({prog.fns[b].span for b in ck.last.stats["bodies"] if b in prog.fns and "extended" in prog.fns[b].span})[:5])
        if r is None:
            ck.fail(ret, n, "never returns", where)
            continue
        g = ck.last.root_guard
        bad = [t for t in all_tests(g) if not interval_only(t)]
        ck.oblige(ret, n[5:], not bad, "an assertion depends on " + tm.show_test(bad[0], 4)[:300] if bad else "", where)
        for i, s in outs.items():
            v = r[0] if i is None else tm.fields_of(r[0], ("tuple", 3), 3)[i]
            n_leaves, bad = leaves(v)
            ck.oblige(rule, s, not bad, "not known to be finite: " + tm.show(bad[0], 4)[:400] if bad else "%d leaves" % n_leaves, where)


def leaves(v):
    seen, bad = set(), []
    n = 0

    def walk(t, path):
        nonlocal n
        if (t, path) in seen:
            return
        seen.add((t, path))
        if t.op == "case":
            for i, c in enumerate(t.a[1]):
                # a test of the form [x > 0] does not tell a NaN: only finiteness does
                x = t.a[0]
                walk(c, path | {(x, i)} if x.op == "t_bool" else path)
            return
        n += 1
        if t.op == "num" or t is tm.BOT:
            return
        if accepted(t, path):
            return
        bad.append(t)
    walk(v, frozenset())
    return n, bad


def accepted(t, path):
    def holds(name, val):
        b = tobool(mk("op", name, (t,)))
        if b.op != "case":
            return False
        k = [i for i, c in enumerate(b.a[1]) if c is (TRUE if val else tm.FALSE)]
        return bool(k) and (b.a[0], k[0]) in path
    return holds("is_finite", True) or holds("is_nan", False) and holds("is_infinite", False)


def all_tests(g):
    out, st, seen = [], [g], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "case":
            out.append(t.a[0])
            st += t.a[1]
    return out


def interval_only(test):
    syms = set()
    seen, st = set(), [test]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "sym":
            syms.add(t.a[0])
        if t.op in ("mu", "op") and t.op == "mu":
            return False
        st += tm.children(t)
    return syms <= {"arg3"}
