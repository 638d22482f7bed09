"""Reproducibility from the seed, as an effect analysis over the call graph.

Everything that can run between the call of `evolve` (and of `par_optimize`
around it) and its answer is enumerated; in none of it may a value arise that
is not a function of the arguments: another source of randomness, the clock,
the environment, thread timing or shared mutable state, addresses, or the order
in which a hash table hands out its entries. Measured times may exist, but may
not turn into anything else. The generator is created once, from the seed that
is reported, which is the given one when one is given."""
import re
from ..calls import Graph, mentions
from ..prog import Anchor
from .. import terms as tm
from .c31 import places, raw

ENTROPY = ("thread_rng", "from_entropy", "from_os_rng", "os_rng", "getrandom", "RandomState::new", "rand::random", "Uuid::new_v4")
ENTROPY_T = ("OsRng", "ThreadRng", "ReseedingRng", "SystemRandom")
BAN = (
    ("std::env::", "reads the environment"), ("std::fs::", "reads or writes files"), ("std::net::", "uses the network"),
    ("std::process::", "depends on processes"), ("std::thread::", "depends on threads"), ("std::sync::", "shares mutable state between threads"),
    ("core::sync::atomic::", "shares mutable state between threads"), ("core::cell::", "changes state behind shared references"),
    ("parking_lot", "shares mutable state between threads"), ("crossbeam", "shares mutable state between threads"),
    ("dashmap::", "shares mutable state between threads"), ("reqwest::", "uses the network"), ("tokio", "depends on scheduling"),
    ("num_cpus::", "depends on the machine"), ("std::io::stdio::stdin", "reads input"), ("once_cell::", "changes state behind shared references"),
)
LAZY = re.compile(r"^(once_cell::|std::sync::(lazy_lock|once_lock))")
CLOCK = re.compile(r"(^|::)(Instant|Duration|SystemTime)(::|$)")
CLOCK_DEF = ("std::time::Instant", "core::time::Duration", "std::time::SystemTime", "time::instant::Instant", "time::duration::Duration")
# what may be done with measured times: they stay times or are printed
CLOCK_OK = {"now", "elapsed", "duration_since", "checked_duration_since", "saturating_duration_since", "add", "sub", "add_assign", "sub_assign",
            "sum", "clone", "default", "fmt", "new_debug", "from", "into", "mul", "div", "checked_add", "checked_sub", "saturating_sub",
            "saturating_add", "serialize", "serialize_field", "max", "min", "new", "deref", "collect", "push", "unwrap", "expect", "unwrap_or_default",
            "into_iter", "iter", "map", "next", "insert", "entry"}
NOW = ("now_utc", "now_local", "Utc::now", "Local::now")
RAYON_OK = {"par_iter_mut", "par_iter", "into_par_iter", "for_each", "map", "enumerate", "zip", "collect", "collect_into_vec", "with_min_len",
            "with_max_len", "cloned", "copied", "all", "any", "count", "chunks", "par_chunks", "par_chunks_mut", "join", "filter", "update",
            "par_sort_by", "par_sort", "par_sort_by_key", "for_each_init", "map_init", "rev", "take", "skip", "chain", "filter_map", "flat_map"}
HASHED = re.compile(r"^(std::collections::hash::|hashbrown::)(map|set)::")
TABLE = re.compile(r"::Hash(Map|Set)$")
HASH_ITER = re.compile(r"::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Intersection|Union|Difference|SymmetricDifference)$")
LAYER = {"map", "filter", "filter_map", "cloned", "copied", "chain", "into_iter", "by_ref", "inspect", "flat_map", "flatten", "iter", "iter_mut",
         "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "count", "any", "all", "len", "size_hint", "clone", "drop",
         "intersection", "union", "difference", "symmetric_difference", "fuse"}
ORDERED_OK = {"sum", "product", "max", "min"}
NUMBERS = ("int", "uint", "bool", "char")
COLLECT_OK = re.compile(r"(::Hash(Map|Set)|::BTree(Map|Set))$")


def contains(t, pred, depth=0):
    if not isinstance(t, tuple):
        return False
    if depth < 40 and t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred, depth + 1) for x in t if isinstance(x, tuple))


def adt_is(rx):
    return lambda t: t[0] == "adt" and isinstance(t[1], str) and rx(t[1])


is_hash_iter = adt_is(lambda n: HASHED.match(n) and HASH_ITER.search(n))
is_table = adt_is(lambda n: TABLE.search(n))
is_clock = adt_is(lambda n: n in CLOCK_DEF)


def peel(t):
    while t[0] == "ref":
        t = t[1]
    return t


def types(prog, s):
    c = s.fn.crate
    return [prog.ty(c, a) for a in s.o.get("args", []) if isinstance(a, int)]


def run(ck):
    prog = ck.load("genetics", "parse")
    g = Graph(prog)
    evolve = [f for f in prog.fns.values() if f.crate == "juno" and f.path.endswith("::evolve")]
    around = [f for f in prog.fns.values() if f.crate == "juno_axum" and f.path.endswith("::par_optimize")]
    if not evolve:
        raise Anchor("evolve")
    if not around:
        raise Anchor("par_optimize")
    entries = [f.id for f in evolve + around]
    reach = g.reach(entries)
    drawn = seeders(prog, g, reach, {f.id for f in evolve})
    made = scan(ck, prog, g, reach, drawn, 200)
    rule = "one generator, made from the reported seed"
    ck.floor(rule, 4)
    ck.oblige(rule, "the generator is made once", len(made) == 1, "made at " + ", ".join(s.span for s in made), made[0].span if made else "")
    seeds(ck, prog, rule)
    wrapper(ck, prog, rule, around[0], {f.id for f in evolve})


def scan(ck, prog, g, reach, drawn, floor):
    """No function in `reach` has an effect; the places generators are made at."""
    ck.functions |= set(reach)
    ck.calls += sum(len(g.sites[f]) for f in reach)
    rule = "computes from its arguments alone"
    ck.floor(rule, floor)
    made = []
    for fid in reach:
        f = prog.fns[fid]
        bad = []
        for s in g.sites[fid]:
            if s.o.get("trait") and s.o["trait"].endswith("SeedableRng") and "Rng" in s.o["trait"] and s.o["item"] != "from_rng":
                made.append(s)
            why = effect(prog, g, s, fid in drawn)
            if why:
                bad.append("%s (%s) at %s" % (why, s.name, s.span))
        for t in f.locals:
            if fid not in drawn and contains(t, adt_is(lambda n: n.split("::")[-1] in ENTROPY_T)):
                bad.append("holds an unseeded generator")
                break
        for b in f.blocks:
            for st in list(b.get("s", [])):
                if st and st[0] == "=" and isinstance(st[2], list):
                    if st[2][0] == "cast" and ("PointerExpose" in st[2][1] or "Transmute" in st[2][1] and pointer(prog, f, st[2][2])):
                        bad.append("turns an address into a number at " + str(st[-1]))
                    if st[2][0] == "tls":
                        bad.append("uses thread-local state at " + str(st[-1]))
            if any(raw(f, p) for p in places([b.get("s"), b.get("t")])):
                bad.append("reads or writes through a raw pointer")
        for sid, span in g.statics[fid]:
            st = prog.fns.get(sid)
            if st is not None and (st.j.get("mutable") or contains(st.locals[0], adt_is(lambda n: n.split("::")[-1] in (
                    "Mutex", "RwLock", "RefCell", "Cell", "OnceCell", "OnceLock", "LocalKey", "UnsafeCell") or "::atomic::" in n))
                    and not contains(st.locals[0], adt_is(lambda n: n.startswith("tracing")))):
                bad.append("uses the mutable static %s at %s" % (sid, span))
        ck.oblige(rule, f.path, not bad, "; ".join(sorted(set(bad))[:4]) + (" (reached: %s)" % g.path(reach, fid)[:300] if bad else ""), f.span)
    return made


def pointer(prog, f, op):
    return op[0] in ("c", "m") and not op[1][1] and f.locals[op[1][0]][0] in ("ptr", "ref")


def seeders(prog, g, reach, evolve):
    """evolve, and what only it calls: there the seed may be drawn when none is
    given (that it is not otherwise is decided on the summary of evolve)."""
    callers = {}
    for f in reach:
        for x, _ in g.edges[f]:
            callers.setdefault(x, set()).add(f)
    ok = set(evolve)
    while True:
        more = {f for f in reach if f not in ok and callers.get(f) and callers[f] <= ok and draws(prog, g, f)}
        if not more:
            return ok
        ok |= more


def draws(prog, g, f):
    """A function that makes a seed: it is given nothing but (perhaps) one."""
    fn = prog.fns[f]
    t = fn.locals[0]
    return t == ("uint", "u64") and all(not contains(x, lambda u: u[0] in ("param", "ref")) or peel(x)[0] == "closure" for x in fn.locals[1:fn.argc + 1])


def effect(prog, g, s, drawn):
    """Why a mention makes a result depend on more than the arguments, or None."""
    d = (s.o.get("r") or {}).get("def") or s.o["def"]
    n, last = s.name, s.o.get("name") or s.name.split("::")[-1]
    if d.startswith(("tracing", "log::")):
        return None
    for e in ENTROPY:
        if e in n or e in d:
            return None if drawn else "draws from an unseeded generator"
    if any(n.endswith(x) for x in NOW) or CLOCK.search(n) and "SystemTime" in n:
        return "reads the wall clock"
    if not s.targets:
        if not LAZY.match(d) or last not in ("new", "force", "deref"):
            for p, why in BAN:
                if d.startswith(p):
                    return why
        if d.startswith("rayon") and last not in RAYON_OK:
            return "depends on how work is split between threads"
    if d.startswith("core::fmt") and last == "new_pointer":
        return "prints an address"
    ts = types(prog, s)
    if not s.targets and (CLOCK.search(n) or any(contains(t, is_clock) and not workspace(prog, peel(t)) for t in ts)) and last not in CLOCK_OK:
        return "makes a decision or a number from measured time"
    return hashed(prog, g, s, ts, last)


def workspace(prog, t):
    return t[0] == "adt" and t[1] in prog.adts and bool(prog.adts[t[1]].get("local"))


def few(prog, t):
    """A table with at most two possible keys: two summands commute."""
    found = []

    def see(u):
        if HASHED.match(u[1]) if u[0] == "adt" and isinstance(u[1], str) else False:
            found.append(u[2][0] if u[2] else None)
        return False
    contains(t, see)
    for k in found:
        k = peel(k) if k else ("?",)
        if k[0] == "bool":
            continue
        a = prog.adts.get(k[1]) if k[0] == "adt" else None
        if a is None or a.get("kind", "enum") != "enum" and len(a["v"]) < 2 or len(a["v"]) > 2 or any(v["f"] for v in a["v"]):
            return False
    return bool(found)


def hashed(prog, g, s, ts, last):
    of = [t for t in ts if contains(t, is_hash_iter) and not workspace(prog, peel(t))]
    direct = [t for t in ts[1:] if is_table(peel(t)) and last in ("extend", "from_iter", "zip", "chain", "eq", "collect") and last not in ("eq", "collect")]
    if not of and not direct:
        return None
    if s.targets:
        return "hands the entries of a hash table to a function in their arbitrary order"
    recv = peel(ts[0]) if ts else ("?",)
    if last in LAYER:
        why = closures(prog, of)
        return why
    if last in ("collect", "from_iter", "extend", "partition"):
        tgt = recv if last in ("extend", "from_iter") else next((peel(t) for t in ts[1:]), ("?",))
        if tgt[0] == "adt" and COLLECT_OK.search(tgt[1]):
            return closures(prog, of)
        return "keeps the entries of a hash table in their arbitrary order"
    if last in ORDERED_OK:
        out = ts[-1] if last in ("sum", "product") else item(ts[0])
        if peel(out)[0] in NUMBERS or last in ("sum", "product") and all(few(prog, t) for t in of):
            return closures(prog, of)
        if last in ("max", "min"):
            return closures(prog, of)         # total orders only (Ord)
        return "adds numbers in the arbitrary order of a hash table"
    if last == "fold" and all(few(prog, t) for t in of) and adds(prog, s):
        return closures(prog, of)
    if last == "next" and all(few(prog, t) for t in of) and sums(s.fn):
        return None
    return "uses the entries of a hash table in their arbitrary order"


def item(t):
    return peel(t)


def adds(prog, s):
    """The closure given to fold adds to its accumulator."""
    for t in types(prog, s):
        if t[0] == "closure" and t[1] in prog.fns:
            f = prog.fns[t[1]]
            return sums(f, whole=True)
    return False


def sums(f, whole=False):
    """Numbers are kept across iterations by addition only."""
    ok = False
    for b in f.blocks:
        for st in b.get("s", []):
            if st and st[0] == "=" and st[2][0] == "bin" and not st[1][1] and f.locals[st[1][0]][0] == "float":
                if st[2][1] == "Add":
                    ok = True
                elif any(x[0] in ("c", "m") and x[1][0] == st[1][0] for x in st[2][2:4]):
                    return False
        t = b.get("t")
        if t and t[0] == "call":
            out = []
            mentions(t[1], out)
            for k, o in out:
                tr = o.get("trait", "") if k == "fn" else ""
                if tr.startswith("core::ops::arith::"):
                    if o.get("item") in ("add", "add_assign"):
                        ok = True
                    elif o.get("item", "").endswith("_assign"):
                        return False
                elif k == "fn" and o.get("name") not in ("next", "into_iter", "values", "iter", "keys", "deref", "into_values", "drop_in_place"):
                    return False
    return ok


def closures(prog, ts):
    """Closures on the way may not carry state from entry to entry."""
    bad = []

    def see(u):
        if u[0] == "closure" and contains(u[2], lambda v: v[0] == "ref" and len(v) > 2 and v[2] is True):
            bad.append(u[1])
        return False
    for t in ts:
        contains(t, see)
    return "carries state from entry to entry of a hash table (%s)" % bad[0] if bad else None


def ops(t, out, seen):
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "op" and isinstance(x.a[0], str) and x.a[0].startswith("rand:"):
            out.append(x)
        todo += tm.children(x)


def seeds(ck, prog, rule):
    fn = next((f for f in prog.fns.values() if f.crate == "spec_genetics" and f.name == "impl_evolve"), None)
    if fn is None:
        raise Anchor("impl_evolve")
    r = ck.summary(fn, inline_dyn=True)
    if r is None:
        ck.fail(rule, "evolve", "never returns")
        return
    found = []
    ops(r[0], found, set())
    made = {x for x in found if "seed_from" in x.a[0]}
    reported = field(prog, r[0], "seed")
    ck.oblige(rule, "the seed reported is the one used", len(made) == 1 and reported is not None and all(x.a[1][0] is reported for x in made),
              "made from %s, reported %s" % ([tm.show(x.a[1][0], 4) for x in made], tm.show(reported, 4) if reported is not None else "?"))
    given = under_some(reported, tm.sym("arg4")) if reported is not None else None
    ck.oblige(rule, "a given seed is the seed used", given is not None and not unseeded(given) and given.op not in ("case", "num"),
              "with a seed given: %s" % (tm.show(given, 5) if given is not None else "?"))


def unseeded(t):
    out = []
    ops(t, out, set())
    return bool(out)


def under_some(t, arg):
    """t where the optional argument is present."""
    def go(t):
        if t.op == "case" and t.a[0].op == "t_discr" and t.a[0].a[0] is arg:
            return go(t.a[1][1]) if len(t.a[1]) == 2 else t
        return t
    r = go(t)
    return r


def field(prog, t, name):
    return named(prog, t, t.a[0], name) if t.op == "agg" else None


def wrapper(ck, prog, rule, fn, evolve):
    """par_optimize passes the seed on and reports the one evolve reports."""
    opq = evolve | {f.id for f in prog.fns.values() if not f.crate.startswith("spec_") and f.path.endswith(("traders::trade", "Statistics::compose", "BasicEvaluation::new"))}
    r = ck.summary(fn, inline_dyn=True, opaque=opq)
    if r is None:
        ck.fail(rule, "par_optimize", "never returns")
        return
    calls, todo, seen = [], [r[0]], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "op" and x.a[0] in ["call:" + e for e in evolve]:
            calls.append(x)
        todo += tm.children(x)
    reported = field(prog, r[0], "seed")
    ck.oblige(rule, "the answer reports the seed of its evolution", len(calls) == 1 and reported is not None and reported is named(prog, calls[0], SEED_OF, "seed"),
              "%d calls of evolve, reported %s" % (len(calls), tm.show(reported, 3) if reported is not None else "?"), fn.span)
    ok = len(calls) == 1 and named(prog, tm.sym("arg0"), peel(fn.locals[1]), "seed") in calls[0].a[1]
    ck.oblige(rule, "the requested seed is handed to evolve", ok, "", fn.span)


SEED_OF = ("adt", "juno::genetics::Evolution")


def named(prog, x, t, name):
    """x.name, x of the struct type t."""
    fs = prog.adts[t[1]]["v"][0]["f"] if t[0] == "adt" and t[1] in prog.adts else []
    i = next((i for i, f in enumerate(fs) if f["n"] == name), None)
    return tm.proj(x, ("f", ("adt", t[1]), 0, i)) if i is not None else None
