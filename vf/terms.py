"""Canonical value terms for the value-flow analysis.

A value is a hash-consed term.  Control dependence is carried by ordered
decision nodes ("gates", as in gated SSA): a `case` node selects between values
by a test on program values.  Arithmetic is kept in a polynomial normal form
with exact rational coefficients, order tests on a linear form are kept as
sorted thresholds, aggregates are kept field by field.  Two values that the
normal form makes equal are the same Python object.
"""
import math
from fractions import Fraction
import sys
import zlib

OPTION = "core::option::Option"
sys.setrecursionlimit(200000)


class Limit(Exception):
    """The normal form of some value grew beyond what is worth comparing."""


class T:
    __slots__ = ("op", "a", "id", "fv", "ty", "_k", "rf")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
_order = {}
MEMO = {}
BOUNDS = []
_BOUND = {}
_bmemo = {}
_bjoin = {}
LIMIT = [3000000]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _n[0]
        _n[0] += 1
        if _n[0] > LIMIT[0]:
            raise Limit("term table limit")
        t.fv = None
        t.ty = None
        t._k = None
        t.rf = None
        _tab[k] = t
    return t


_TESTS = {}


def reset():
    _TESTS.clear()
    _tab.clear()
    _order.clear()
    MEMO.clear()
    _bmemo.clear()
    _bjoin.clear()
    _BOUND.clear()
    _n[0] = 0
    global BOT, TRUE, FALSE, UNIT, ZERO, ONE, CONT, DEAD
    BOT = mk("bot")
    TRUE = mk("bool", True)
    FALSE = mk("bool", False)
    UNIT = mk("agg", ("tuple", 0), ())
    ZERO = mk("num", Fraction(0))
    ONE = mk("num", Fraction(1))
    CONT = mk("cont")
    DEAD = mk("dead")


reset()


def num(x):
    return mk("num", Fraction(x))


def boolean(b):
    return TRUE if b else FALSE


def string(s):
    return mk("str", s)


def sym(name, ty=None):
    t = mk("sym", name)
    if ty and t.ty is None:
        t.ty = ty
    return t


# ------------------------------------------------------------------ tests --
def _ord(key):
    i = _order.get(key)
    if i is None:
        i = len(_order)
        _order[key] = i
    return i


def tkey(test):
    """Total order of tests; thresholds on one linear form are adjacent."""
    k = test._k
    if k is None:
        if test.op == "t_thr":
            q, c, s = test.a
            k = (_ord(("q", q)), c, s)
        elif test.op == "t_discr":
            k = (_ord(("d", test.a[0])), 0, 0)
        else:
            k = (_ord(("b",) + test.a), 0, 0)
        test._k = k
    return k


def t_discr(x, adt, n):
    return mk("t_discr", x, adt, n)


def t_bool(x):
    return mk("t_bool", x)


def arity(test):
    return test.a[2] if test.op == "t_discr" else 2


def is_case(t):
    return t.op == "case"


def is_agg(t):
    return t.op == "agg" or t.op == "enum"


def restrict(t, test, i):
    """Cofactor of t (whose top test is not below `test`) for outcome i."""
    while t.op == "case":
        tt = t.a[0]
        if tt is test:
            t = t.a[1][i]
            continue
        if test.op == "t_thr" and tt.op == "t_thr" and tt.a[0] is test.a[0]:
            # tt has a higher threshold than test
            if i == 0 and tkey(tt) > tkey(test):
                t = t.a[1][0]
                continue
            if i == 1 and tkey(tt) < tkey(test):
                t = t.a[1][1]
                continue
        break
    return t


def cofactor(t, test, i, memo):
    """t where `test` has outcome i."""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "case":
        x = restrict(t, test, i)
        if x is not t:
            r = cofactor(x, test, i, memo)
        elif tkey(t.a[0]) < tkey(test):
            r = join(t.a[0], [cofactor(c, test, i, memo) for c in t.a[1]])
        else:
            r = t
    elif t.op in ("agg", "enum"):
        r = map_parts(t, lambda x: cofactor(x, test, i, memo))
    else:
        r = t
    memo[t] = r
    return r


def map_parts(v, f):
    if v.op == "agg":
        return mk_agg(v.a[0], tuple(f(x) for x in v.a[1]))
    return mk_enum(v.a[0], f(v.a[1]), tuple(None if p is None else tuple(f(x) for x in p) for p in v.a[2]))




def case_tests(t):
    """The tests of the gates on top of t (and of its fields)."""
    r = _TESTS.get(t)
    if r is not None:
        return r
    if t.op == "case":
        s = {t.a[0]}
        for c in t.a[1]:
            s |= case_tests(c)
        r = frozenset(s)
    elif t.op == "agg" and t.a[0][0] != "array":
        r = frozenset().union(*[case_tests(c) for c in t.a[1]]) if t.a[1] else frozenset()
    elif t.op == "enum":
        s = set(case_tests(t.a[1]))
        for p in t.a[2]:
            for c in p or ():
                s |= case_tests(c)
        r = frozenset(s)
    else:
        r = frozenset()
    _TESTS[t] = r
    return r


def implies(t1, t2):
    """Does q1 >= c1 imply q2 >= c2 whatever the values (q2 - q1 never negative)?"""
    if t1.op != "t_thr" or t2.op != "t_thr":
        return False
    q1, c1, s1 = t1.a
    q2, c2, s2 = t2.a
    if q1 is q2:
        return c2 < c1 or (c2 == c1 and s2 <= s1)
    if c2 > c1 or (c2 == c1 and s2 > s1):
        return False
    key = ("impl", q1, q2)
    r = MEMO.get(key)
    if r is None:
        d1, d2 = _poly(q1), _poly(q2)
        r = True
        for m in set(d1) | set(d2):
            k = d2.get(m, 0) - d1.get(m, 0)
            if k and (k < 0 or not m or any(x.ty != "u" for x, e in m)):
                r = False
                break
        MEMO[key] = r
    return r


def tests_on(t, test):
    """Does a gate on top of t depend on the outcome of test?"""
    ts = case_tests(t)
    if test in ts:
        return True
    return test.op == "t_thr" and any(x.op == "t_thr" and x.a[0] is test.a[0] for x in ts)


def _mk_case(test, ch):
    live = [c for c in ch if c is not BOT]
    if not live:
        return BOT
    f = live[0]
    for c in live:
        if c is not f:
            break
    else:
        return f
    if test.op == "t_thr":
        c0 = restrict(ch[0], test, 0)
        if c0 is not ch[0]:
            return _mk_case(test, (c0, ch[1]))
        if ch[1].op == "case" and restrict(ch[1], test, 0) is c0:
            # told apart by a higher threshold anyway
            return ch[1]
        lo, hi = ch
        while hi.op == "case" and implies(test, hi.a[0]):
            hi = hi.a[1][1]
        while lo.op == "case" and implies(lo.a[0], test):
            lo = lo.a[1][0]
        if lo is hi:
            return lo
        if lo.op == "case" and lo.a[1][1] is hi and implies(test, lo.a[0]):
            return lo
        if hi.op == "case" and hi.a[1][0] is lo and implies(hi.a[0], test):
            return hi
        ch = (lo, hi)
        if BOUNDS and test.a[2] and same_at_bound(test, lo, hi):
            # it makes no difference on which side the bound itself is
            test = mk("t_thr", test.a[0], test.a[1], 0)
            return _mk_case(test, (lo, restrict(hi, test, 1)))
        x = unit_leaf(test)
        if x is not None and x.op == "op" and x.a[0] == "irem" and (lo is x or lo.op == "poly" and any(y is x for m, c in lo.a[0] for y, e in m)):
            z = at_zero(lo, x, [40])
            if z is not None:
                return _mk_case(test, (z, hi))
        if x is not None and hi.op == "case":
            # below the threshold x is zero: the same value written twice
            z = at_zero(hi, x, [40])
            if z is not None and z is lo:
                return hi
    return mk("case", test, tuple(ch))




def bounds(t):
    """t with every strict threshold that might as well not be one turned into
    the other kind (max(x, y) may be written with > or with >=)."""
    global MEMO
    BOUNDS.append(1)
    old, MEMO = MEMO, _bjoin
    try:
        def go(t):
            r = _bmemo.get(t)
            if r is None:
                if len(_bmemo) > 60000:
                    raise Limit("bounds")
                r = _bmemo[t] = rebuild(t, go) if children(t) else t
            return r
        return go(t)
    finally:
        MEMO = old
        BOUNDS.pop()


def same(a, b):
    """Are two normal forms equal, up to harmless strictness?"""
    if a is b:
        return True
    try:
        return bounds(a) is bounds(b)
    except Limit:
        return False


def same_at_bound(test, lo, hi):
    """Do the outcomes of q > c agree where q = c?"""
    q, c, _ = test.a
    k = (q, c, lo, hi)
    r = _BOUND.get(k)
    if r is None:
        _BOUND[k] = False
        r = _BOUND[k] = _same_at_bound(q, c, lo, hi)
    return r


def _same_at_bound(q, c, lo, hi):
    todo, st, seen = [], [(lo, hi)], set()
    while st:
        a, b = st.pop()
        if a is b or (a, b) in seen:
            continue
        seen.add((a, b))
        if a.op == "case" or b.op == "case":
            if a.op != b.op or a.a[0] is not b.a[0]:
                return False
            st.extend(zip(a.a[1], b.a[1]))
        elif is_num(a) and is_num(b) or a.op in _RIGID or b.op in _RIGID:
            return False
        elif a.op == b.op == "op" and a.a[0] != b.a[0]:
            return False
        else:
            todo.append((a, b))
        if len(seen) > 12:
            return False
    for x, val in _solutions(q, c):
        memo = {x: val}

        def go(t):
            r = memo.get(t)
            if r is None:
                r = memo[t] = rebuild(t, go) if t.op not in _CLOSED and children(t) else t
            return r
        for a, b in todo:
            sa, sb = set(), set()
            if not (_small(a, x, sa) and _small(b, x, sb)) or not (x in sa or x in sb) or go(a) is not go(b):
                break
        else:
            return True
    return False


_CLOSED = ("mu", "mu0", "mu1", "agg", "enum")
_RIGID = ("bool", "bot", "sp", "cont", "agg", "enum", "ref", "fn", "str")


def _solutions(q, c):
    """q = c solved for one of its terms."""
    ms = _poly(q)
    for m, k in ms.items():
        if len(m) == 1 and m[0][1] == 1 and not any(y is m[0][0] for m2 in ms if m2 is not m for y, e in m2):
            rest = _mk_poly({m2: -v / k for m2, v in ms.items() if m2 is not m})
            yield m[0][0], add(rest, num(Fraction(c) / k))
            return


def _small(t, x, seen):
    if t in seen:
        return True
    seen.add(t)
    if len(seen) > 60:
        return False
    if t is x:
        return True
    if t.op in _CLOSED:
        return True
    return all(_small(y, x, seen) for y in children(t))


def unit_leaf(test):
    """x when the test is x >= 1 for a natural number x."""
    q, c, s = test.a
    if c == 1 and not s and q.ty == "u" and q.op != "poly":
        return q
    return None


def at_zero(t, x, left):
    """t where x is 0; None when it is too big or not plain thresholds."""
    left[0] -= 1
    if left[0] < 0:
        return None
    if t.op == "poly":
        if any(y is x and e < 0 for m, c in t.a[0] for y, e in m):
            return None
        return _mk_poly({m: c for m, c in t.a[0] if not any(y is x for y, e in m)})
    if t is x:
        return ZERO
    if t.op != "case":
        return t if t.op in ("num", "bool", "bot") else None
    test = t.a[0]
    ch = [at_zero(c, x, left) for c in t.a[1]]
    if any(c is None for c in ch):
        return None
    if test.op != "t_thr":
        return None
    d = _poly(test.a[0])
    if not any(y is x for m in d for y, e in m):
        return join(test, ch)
    if any(y is x and e < 0 for m in d for y, e in m):
        return None
    q = _mk_poly({m: c for m, c in d.items() if not any(y is x for y, e in m)})
    integer = all(y.ty in ("u", "i") for m in d for y, e in m)
    return ite(ge0(sub(q, num(test.a[1])), bool(test.a[2]), integer), ch[1], ch[0])


def join(test, ch):
    """The value ch[i] when `test` has outcome i, in normal form."""
    ch = tuple(ch)
    f = ch[0]
    for c in ch:
        if c is not f:
            break
    else:
        return f
    live = [c for c in ch if c is not BOT]
    if not live:
        return BOT
    for c in live:
        if c is not live[0]:
            break
    else:
        if len(live) == len(ch) or not tests_on(live[0], test):
            return live[0]
    agg = None
    for c in live:
        if is_agg(c):
            agg = c
            break
    if agg is None:
        for c in live:
            if c.ty is not None and c.ty[0] == "e" and c.op != "case" and CONT not in live and DEAD not in live:
                # an enum without payload: told by its variant
                agg = mk("enum", c.ty[1], ZERO, ((),) * len(ADT_AR[c.ty[1]]))
                break
    if agg is not None:
        return _join_agg(test, ch, agg)
    key = ("join", test, ch)
    r = MEMO.get(key)
    if r is not None:
        return r
    tk = tkey(test)
    top = test
    topk = tk
    for c in ch:
        if c.op == "case":
            k = tkey(c.a[0])
            if k < topk:
                top, topk = c.a[0], k
    if top is test:
        r = _mk_case(test, tuple(restrict(c, test, i) for i, c in enumerate(ch)))
    else:
        out = []
        for j in range(arity(top)):
            sub = tuple(restrict(c, top, j) for c in ch)
            if top.op == "t_thr" and test.op == "t_thr" and top.a[0] is test.a[0] and j == 0:
                # q below a lower threshold: test is false
                out.append(sub[0])
            else:
                out.append(join(test, sub))
        r = _mk_case2(top, out)
    MEMO[key] = r
    return r


def _mk_case2(top, out):
    for c in out:
        if is_agg(c):
            return join(top, out)
    return _mk_case(top, tuple(out))


def _join_agg(test, ch, agg):
    if agg.op == "agg":
        kind, fs = agg.a
        cols = []
        for c in ch:
            cols.append(fields_of(c, kind, len(fs)))
        return mk_agg(kind, tuple(join(test, [c[i] for c in cols]) for i in range(len(fs))))
    adt = agg.a[0]
    cols = [expand_enum(c, adt) for c in ch]
    tag = join(test, [c[0] for c in cols])
    nv = len(cols[0][1])
    pl = []
    for v in range(nv):
        have = [c[1][v] for c in cols if c[1][v] is not None]
        if not have:
            pl.append(None)
            continue
        n = len(have[0])
        pl.append(tuple(join(test, [BOT if c[1][v] is None else c[1][v][i] for c in cols]) for i in range(n)))
    return mk_enum(adt, tag, tuple(pl))


# adt id -> list of variant arities; filled by the program model
ADT_AR = {}


def fields_of(t, kind, n):
    if t.op == "agg" and t.a[0] == kind:
        return t.a[1]
    if t is BOT:
        return (BOT,) * n
    if kind[0] == "array":
        return tuple(select(t, num(i)) for i in range(n))
    return tuple(proj(t, ("f", kind, 0, i)) for i in range(n))


def mk_agg(kind, fs):
    fs = tuple(fs)
    if fs and all(f is BOT for f in fs):
        return BOT
    # eta: all fields are projections of one opaque value
    if fs and kind[0] in ("adt", "tuple"):
        f0 = fs[0]
        if f0.op == "proj" and f0.a[1] == ("f", kind, 0, 0):
            x = f0.a[0]
            if all(f.op == "proj" and f.a[0] is x and f.a[1] == ("f", kind, 0, i) for i, f in enumerate(fs)):
                return x
    return mk("agg", kind, fs)


def variants(adt):
    return ADT_AR[adt]


def mk_enum(adt, tag, pl):
    if tag is BOT:
        return BOT
    if tag.op in ("mu", "case"):
        tag = tag_cases(tag, len(ADT_AR[adt]))
    # eta
    if tag.op == "case" and tag.a[0].op == "t_discr":
        x = tag.a[0].a[0]
        if tag is tag_of(x, adt):
            ok = True
            for v, p in enumerate(pl):
                for i in range(ADT_AR[adt][v]):
                    if p is None or p[i] is not proj(x, ("f", ("adt", adt), v, i)) and not (p[i].op == "agg" and not p[i].a[1] and p[i].a[0][0] == "adt"):
                        ok = False
            if ok:
                return x
    return mk("enum", adt, tag, tuple(pl))


def enum_val(adt, v, fs):
    return mk("enum", adt, num(v), tuple(tuple(fs) if i == v else None for i in range(len(ADT_AR[adt]))))


def tag_of(t, adt):
    """Variant index of an enum value."""
    if t.op == "enum":
        return t.a[1]
    if t is BOT:
        return BOT
    if t.op == "case":
        return apply("tag", lambda x: tag_of(x, adt), (t,), (adt,))
    n = len(ADT_AR[adt])
    if n == 1:
        return num(0)
    return _mk_case(t_discr(t, adt, n), tuple(num(i) for i in range(n)))


def tag_cases(t, n):
    """A variant index that comes out of a loop, as one of 0 .. n-1."""
    if t.op == "case":
        return apply("tagc", lambda x: tag_cases(x, n), (t,), (n,))
    if t.op != "mu" or n > 4 or odd_number(t, n):
        return t
    r = ZERO
    for i in range(1, n):
        r = ite(cmp("ge", t, num(i), True), num(i), r)
    return r


_odd = {}


def odd_number(t, n):
    """Does a number that is no variant index occur among its leaves?"""
    r = _odd.get((t, n))
    if r is None:
        _odd[(t, n)] = False
        if t.op == "num":
            r = not (0 <= t.a[0] < n)
        elif t.op == "case":
            r = any(odd_number(c, n) for c in t.a[1])
        elif t.op in ("mu", "mu1"):
            r = any(odd_number(c, n) for c in t.a if hasattr(c, "op"))
        else:
            r = False
        _odd[(t, n)] = r
    return r


def expand_enum(t, adt):
    if t.op == "enum":
        return t.a[1], t.a[2]
    if t is BOT:
        return BOT, tuple(None for _ in ADT_AR[adt])
    pl = []
    for v, n in enumerate(ADT_AR[adt]):
        pl.append(tuple(proj(t, ("f", ("adt", adt), v, i)) for i in range(n)))
    return tag_of(t, adt), tuple(pl)


def apply(name, f, args, extra=()):
    """Applies leaf function f under the gates of its arguments."""
    top = None
    for a in args:
        if a.op == "case":
            k = tkey(a.a[0])
            if top is None or k < topk:
                top, topk = a.a[0], k
    if top is None:
        return f(*args)
    key = (name, extra, args)
    r = MEMO.get(key)
    if r is not None:
        return r
    out = []
    for i in range(arity(top)):
        out.append(apply(name, f, tuple(restrict(a, top, i) for a in args), extra))
    r = join(top, out)
    MEMO[key] = r
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c is BOT:
        return BOT
    if c.op != "case":
        return join(t_bool(c), (b, a))
    if c.a[1] == (FALSE, TRUE):
        return join(c.a[0], (b, a))
    if c.a[1] == (TRUE, FALSE):
        return join(c.a[0], (a, b))
    agg = a if is_agg(a) else b if is_agg(b) else None
    if agg is not None:
        if agg.op == "agg":
            kind, fs = agg.a
            x = fields_of(a, kind, len(fs))
            y = fields_of(b, kind, len(fs))
            return mk_agg(kind, tuple(ite(c, p, q) for p, q in zip(x, y)))
        adt = agg.a[0]
        ta, pa = expand_enum(a, adt)
        tb, pb = expand_enum(b, adt)
        pl = []
        for v in range(len(pa)):
            x, y = pa[v], pb[v]
            if x is None and y is None:
                pl.append(None)
            else:
                m = len(x if x is not None else y)
                x = x if x is not None else (BOT,) * m
                y = y if y is not None else (BOT,) * m
                pl.append(tuple(ite(c, p, q) for p, q in zip(x, y)))
        return mk_enum(adt, ite(c, ta, tb), tuple(pl))

    def leaf(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c is BOT:
            return BOT
        return join(t_bool(c), (b, a))
    return apply("ite", leaf, (c, a, b))


def tobool(x):
    """An opaque boolean as a gate on itself."""
    if x.op in ("bool", "bot"):
        return x
    if x.op == "case":
        return apply("tobool", tobool, (x,))
    return _mk_case(t_bool(x), (FALSE, TRUE))


def not_(a):
    return ite(a, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


# ------------------------------------------------------------- arithmetic --
def is_num(t):
    return t.op == "num"


def _poly(t):
    """dict monomial -> coefficient."""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def _mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(d) > 4000:
        raise Limit("polynomial size")
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def _mkey(m):
    return tuple((x.id, e) for x, e in m)


def _mmul(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))


def _special(*ts):
    return any(t.op in ("sp", "bot") for t in ts)


def _sp(name, *ts):
    if any(t is BOT for t in ts):
        return BOT
    if any(t.op == "sp" and t.a[0] == "nan" for t in ts):
        return mk("sp", "nan")
    return mk("op", name, ts)


def add(a, b):
    def leaf(a, b):
        if _special(a, b):
            return _sp("add", a, b)
        if a is ZERO:
            return b
        if b is ZERO:
            return a
        d = _poly(a)
        for m, c in _poly(b).items():
            d[m] = d.get(m, 0) + c
        return _mk_poly(d)
    return apply("add", leaf, (a, b))


def scale(a, k):
    k = Fraction(k)

    def leaf(a):
        if _special(a):
            return _sp("scale", a, num(k))
        return _mk_poly({m: c * k for m, c in _poly(a).items()})
    return apply("scale", leaf, (a,), (k,))


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def mul(a, b):
    def leaf(a, b):
        if _special(a, b):
            return _sp("mul", a, b)
        pa, pb = _poly(a), _poly(b)
        # cancel P * P^-1
        for x, y in ((a, b), (b, a)):
            if x.op == "poly" and len(_poly(x)) > 1:
                np_, k = _primitive(x)
                dy = _poly(y)
                if len(dy) == 1:
                    (m, c), = dy.items()
                    for (at, e) in m:
                        if e < 0 and at is mk("paren", np_):
                            m2 = _mmul(m, ((at, 1),))
                            return _mk_poly({m2: c * k})
        if len(pa) * len(pb) > 4000:
            raise Limit("polynomial size")
        d = {}
        for m1, c1 in pa.items():
            for m2, c2 in pb.items():
                m = _mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return _mk_poly(_quotients(d))
    return apply("mul", leaf, (a, b))


def _quotients(d):
    """m * (a / m) = a - a % m  for whole numbers."""
    for m in list(d):
        for x, e in m:
            if x.op == "op" and x.a[0] == "idiv" and e == 1:
                b = x.a[1][1]
                if any(y is b and f == 1 for y, f in m):
                    c = d.pop(m)
                    rest = tuple((y, f) for y, f in m if y is not b and y is not x)
                    r = mk("op", "irem", x.a[1])
                    r.ty = "u"
                    for mm, cc in list(_poly(x.a[1][0]).items()) + [(((r, 1),), -1)]:
                        q = _mmul(rest, mm)
                        d[q] = d.get(q, 0) + c * cc
                    break
                if b.op == "num" and (d[m] / b.a[0]).denominator == 1:
                    c = d.pop(m) / b.a[0]
                    rest = tuple((y, f) for y, f in m if y is not x)
                    r = mk("op", "irem", x.a[1])
                    r.ty = "u"
                    for mm, cc in list(_poly(x.a[1][0]).items()) + [(((r, 1),), -1)]:
                        q = _mmul(rest, mm)
                        d[q] = d.get(q, 0) + c * cc
                    break
    return d


def _primitive(p):
    """(p / k, k) with a canonical leading coefficient of 1."""
    d = _poly(p)
    ms = sorted((m for m in d if m), key=_mkey)
    k = d[ms[0]]
    return _mk_poly({m: c / k for m, c in d.items()}), k


def inv(b):
    d = _poly(b)
    if len(d) == 1:
        (m, c), = d.items()
        return _mk_poly({tuple((x, -e) for x, e in m): 1 / c})
    p, k = _primitive(b)
    return _mk_poly({((mk("paren", p), -1),): 1 / k})


def div(a, b):
    """Real division."""
    def leaf(a, b):
        if _special(a, b):
            return _sp("div", a, b)
        if b is ZERO:
            return mk("op", "div0", (a,))
        if a.op == "poly" and b.op == "poly" and len(_poly(b)) > 1:
            p, k = _primitive(b)
            q, k2 = _primitive(a)
            if p is q:
                return num(k2 / k)
        return mul(a, inv(b))
    return apply("div", leaf, (a, b))


def linear_form(d):
    """(q, c0, scale): value = scale*(q + c0'), q without constant term and
    with leading coefficient 1."""
    c0 = d.get((), Fraction(0))
    ms = sorted((m for m in d if m), key=_mkey)
    lead = d[ms[0]]
    q = _mk_poly({m: d[m] / lead for m in ms})
    return q, c0, lead


def _nonneg(q):
    """q is a sum of non-negative atoms with positive coefficients."""
    for m, c in _poly(q).items():
        if c < 0:
            return False
        for x, e in m:
            if x.ty != "u":
                return False
    return True


def multiple(d, b):
    """The polynomial is a multiple of b whatever the values are."""
    d = dict(d)
    while True:
        m = next((m for m in d if any(x.op == "op" and x.a[0] == "irem" and x.a[1][1] is b for x, e in m)), None)
        if m is None:
            break
        c = d.pop(m)
        if len(m) != 1 or m[0][1] != 1:
            return False
        # x mod b is x up to a multiple of b
        for mm, cc in _poly(m[0][0].a[1][0]).items():
            d[mm] = d.get(mm, 0) + c * cc
    return all(not c or c.denominator == 1 and any(x is b and e >= 1 for x, e in m) for m, c in d.items())


def _quotient(q):
    """q / b for a polynomial that is a multiple of b by the remainders that
    were taken off, split into whole multiples and the rest."""
    d = _poly(q)
    bs = {x.a[1][1] for m in d for x, e in m if x.op == "op" and x.a[0] == "irem" and x.a[1][1].op != "num"}
    for b in bs:
        if b.op == "case" or b.op == "poly":
            continue
        whole = {m: c for m, c in d.items() if any(x is b and e >= 1 for x, e in m)}
        rest = {m: c for m, c in d.items() if m not in whole}
        if not rest or not multiple(rest, b):
            continue
        from .flow import idiv
        y = {}
        for m, c in whole.items():
            mm = tuple((x, e - 1 if x is b else e) for x, e in m)
            mm = tuple((x, e) for x, e in mm if e)
            y[mm] = y.get(mm, 0) + c
        lead = rest[min(rest, key=_mkey)]
        neg = sum(c for c in rest.values() if c) < 0 or (sum(rest.values()) == 0 and lead < 0)
        r = idiv(_mk_poly({m: -c for m, c in rest.items()} if neg else rest), b)
        return (sub if neg else add)(_mk_poly(y), r)
    return None


def thr(q, c, strict, integer):
    """Test q >= c (strict: q > c)."""
    c = Fraction(c)
    if integer and all(k.denominator == 1 for k in _poly(q).values()):
        if strict:
            c = Fraction((c // 1) + 1)
        else:
            c = Fraction(-((-c) // 1))
        strict = 0
        if _nonneg(q) and c <= 0:
            return TRUE
        if c in (0, 1):
            y = _quotient(q)
            if y is not None:
                return cmp("ge", y, num(c), True)
    elif _nonneg(q) and (c < 0 or (c == 0 and not strict)):
        return TRUE
    return _mk_case(mk("t_thr", q, c, int(strict)), (FALSE, TRUE))


def ge0(p, strict, integer):
    """p >= 0 (or p > 0)."""
    def leaf(p):
        if p is BOT:
            return BOT
        if p.op in ("sp", "op") and p.op == "sp":
            if p.a[0] == "inf":
                return TRUE
            if p.a[0] == "-inf":
                return FALSE
            return FALSE
        d = _poly(p)
        if all(m == () for m in d):
            c = d.get((), 0)
            return boolean(c > 0 if strict else c >= 0)
        if integer:
            for m, c in d.items():
                # idiv(e, k) + r >= 0  <=>  e + k*r >= 0, and the other way round
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "op" and m[0][0].a[0] == "idiv":
                    e, k = m[0][0].a[1]
                    if k.op != "num" or k.a[0] < 2 or cmp("ge", e, ZERO, True) is not TRUE:
                        continue
                    r = sub(p, scale(m[0][0], c))
                    if any(x.denominator != 1 for x in _poly(r).values()):
                        continue
                    if strict:
                        r = sub(r, ONE)
                    if c == 1:
                        return ge0(add(e, scale(r, k.a[0])), False, True)
                    return ge0(sub(add(scale(r, k.a[0]), num(k.a[0] - 1)), e), False, True)
        q, c0, lead = linear_form(d)
        if integer:
            # primitive integer coefficients
            cs = list(_poly(q).values())
            l, g = 1, 0
            for k in cs:
                l = l * k.denominator // math.gcd(l, k.denominator)
            for k in cs:
                g = math.gcd(g, int(k * l))
            f = Fraction(l, g)
            if f != 1:
                q = scale(q, f)
                lead = lead / f
        # lead*q + c0 >= 0
        if lead > 0:
            return thr(q, -c0 / lead, strict, integer)
        # q <= -c0/lead  <=> not (q > -c0/lead)
        return not_(thr(q, -c0 / lead, not strict, integer))
    return apply("ge0", leaf, (p,), (strict, integer))


def cmp(op, a, b, integer):
    """Comparison; NaN is not distinguished (see DESIGN: trusted base)."""
    if op == "ge":
        return ge0(sub(a, b), False, integer)
    if op == "gt":
        return ge0(sub(a, b), True, integer)
    if op == "le":
        return ge0(sub(b, a), False, integer)
    if op == "lt":
        return ge0(sub(b, a), True, integer)
    if op == "eq":
        d = sub(a, b)
        return and_(ge0(d, False, integer), not_(ge0(d, True, integer)))
    if op == "ne":
        return not_(cmp("eq", a, b, integer))
    raise KeyError(op)


_SHAPE = {}


def shape(t, depth):
    """A number for how a term is built, the same whatever the places a loop
    carries are called and whatever the order of its tests is."""
    if depth == 0:
        return 0
    k = (t, depth)
    r = _SHAPE.get(k)
    if r is not None:
        return r
    if t.op == "phi":
        x = ("phi", str(t.ty))
    elif t.op == "case":
        x = ("case", sorted(shape(c, depth - 1) for c in t.a[1]))
    elif t.op == "poly":
        x = ("poly", sorted((abs(c.numerator), c.denominator, sorted((shape(y, depth - 1), e) for y, e in m)) for m, c in t.a[0]))
    else:
        def go(y):
            if isinstance(y, T):
                return shape(y, depth - 1)
            if isinstance(y, (tuple, list)):
                return [go(z) for z in y]
            return str(y)
        x = (t.op, go(t.a))
    r = _SHAPE[k] = zlib.crc32(repr(x).encode()) or 1
    return r


def _earlier(a, b):
    """Order of two alternatives that are equally good on a tie."""
    if is_case(a) or is_case(b):
        return True
    for d in range(1, 8):
        x, y = shape(a, d), shape(b, d)
        if x != y:
            return x < y
    return a.id < b.id


def max_(a, b, integer=False):
    if cmp("ge", b, a, integer) is TRUE:
        return b
    if cmp("ge", a, b, integer) is TRUE:
        return a
    if not _earlier(a, b):
        a, b = b, a
    return ite(cmp("ge", a, b, integer), a, b)


def min_(a, b, integer=False):
    if cmp("ge", a, b, integer) is TRUE:
        return b
    if cmp("ge", b, a, integer) is TRUE:
        return a
    if not _earlier(a, b):
        a, b = b, a
    return ite(cmp("le", a, b, integer), a, b)


def abs_(a):
    return ite(ge0(a, False, False), a, neg(a))


def opq(name, *args):
    """Uninterpreted operation, distributed over gates of scalar arguments."""
    args = tuple(args)
    if any(a.op == "case" for a in args):
        return apply("op:" + name, lambda *x: opq(name, *x), args)
    if any(a is BOT for a in args):
        return BOT
    return mk("op", name, args)


def opq_flat(name, *args):
    """Uninterpreted operation that keeps its arguments as they are."""
    return mk("op", name, tuple(args))


def eq_generic(a, b):
    """Equality of opaque values."""
    if a is b:
        return TRUE
    if is_agg(a) or is_agg(b):
        g = a if is_agg(a) else b
        if g.op == "agg":
            kind, fs = g.a
            x, y = fields_of(a, kind, len(fs)), fields_of(b, kind, len(fs))
            r = TRUE
            for p, q in zip(x, y):
                r = and_(r, eq_generic(p, q))
            return r
        adt = g.a[0]
        ta, pa = expand_enum(a, adt)
        tb, pb = expand_enum(b, adt)
        r = cmp("eq", ta, tb, True)
        for v in range(len(pa)):
            if pa[v] is None or pb[v] is None or not pa[v]:
                continue
            e = TRUE
            for p, q in zip(pa[v], pb[v]):
                e = and_(e, eq_generic(p, q))
            r = and_(r, ite(cmp("eq", ta, num(v), True), e, TRUE))
        return r

    def leaf(a, b):
        if a is b:
            return TRUE
        if a is BOT or b is BOT:
            return BOT
        if a.op == b.op and a.op in ("str", "char", "bool"):
            return FALSE
        if a.op in ("num", "poly") or b.op in ("num", "poly") or a.ty in ("u", "i", "f") or b.ty in ("u", "i", "f"):
            return cmp("eq", a, b, a.ty != "f" and b.ty != "f")
        x, y = (a, b) if a.id < b.id else (b, a)
        if x.op in ("str", "char"):
            x, y = y, x
        return _mk_case(mk("t_eq", x, y), (FALSE, TRUE))
    return apply("eqg", leaf, (a, b))


# ----------------------------------------------------------- projections ---
def proj(t, e):
    """Component e of value t."""
    if t is BOT:
        return BOT
    o = t.op
    if o == "agg":
        k, fs = t.a
        if e[0] == "f":
            return fs[e[3]] if e[3] < len(fs) else BOT
        if e[0] == "b":
            return fs[0]
        if e[0] == "ix":
            return select(t, e[1])
    elif o == "enum":
        if e[0] == "f":
            p = t.a[2][e[2]]
            if p is None:
                return BOT
            return p[e[3]]
    elif o == "case":
        return apply("proj", lambda x: proj(x, e), (t,), (e,))
    if e[0] == "ix":
        return select(t, e[1])
    return mk("proj", t, e)


def select(s, i):
    """Element i of a sequence."""
    if i.op == "case" or s.op == "case":
        return apply("select", select, (s, i))
    if s is BOT or i is BOT:
        return BOT
    if s.op == "agg" and s.a[0][0] == "array":
        if i.op == "num":
            k = int(i.a[0])
            return s.a[1][k] if 0 <= k < len(s.a[1]) else BOT
    if s.op == "op":
        n = s.a[0]
        if n == "store":
            b, j, v = s.a[1]
            if j is i:
                return v
            return ite(cmp("eq", i, j, True), v, select(b, i))
        if n == "push":
            b, v = s.a[1]
            l = length(b)
            if l is i:
                return v
            return ite(cmp("eq", i, l, True), v, select(b, i))
        if n == "subseq":
            b, lo, hi = s.a[1]
            return select(b, add(lo, i))
        if n == "repeat":
            return s.a[1][0]
        if n == "tab":
            return replace(s.a[1][2], {s.a[1][1]: i})
        if n == "cat":
            l = length(s.a[1][0])
            return ite(cmp("gt", l, i, True), select(s.a[1][0], i), select(s.a[1][1], sub(i, l)))
    return mk("proj", s, ("ix", i))


# ------------------------------------------------------------ tabulations --
_binders = {}


def binders(t):
    """How deep tabulations are nested in t."""
    r = _binders.get(t)
    if r is None:
        r = max([0] + [binders(c) for c in children(t)])
        if t.op == "op" and t.a[0] == "tab":
            r = max(r, int(t.a[1][1].a[0][2:]) + 1)
        _binders[t] = r
    return r


_occurs = {}


def occurs(x, t):
    k = (x, t)
    r = _occurs.get(k)
    if r is None:
        r = _occurs[k] = x is t or any(occurs(x, c) for c in children(t))
    return r


def tab(n, x, body):
    """The sequence of length n whose element number x is body."""
    if n is BOT or body is BOT:
        return BOT
    if n is ZERO:
        return mk("op", "vec_empty", ())
    if not occurs(x, body):
        return mk("op", "repeat", (body, n))
    if body.op == "proj" and body.a[1][0] == "ix" and not occurs(x, body.a[0]):
        c = sub(body.a[1][1], x)
        if not occurs(x, c):
            return subseq(body.a[0], c, add(c, n))
    y = sym("%%e%d" % binders(body), "u")
    if y is not x:
        body = replace(body, {x: y})
    return mk("op", "tab", (n, y, body))


def cat(a, b):
    """a followed by b."""
    if a.op == "case" or b.op == "case":
        return apply("cat", cat, (a, b))
    if a is BOT or b is BOT:
        return BOT
    for x, y in ((a, b), (b, a)):
        if x.op == "op" and x.a[0] == "vec_empty":
            return y
    if b.op == "op" and b.a[0] == "cat":
        return cat(cat(a, b.a[1][0]), b.a[1][1])
    return mk("op", "cat", (a, b))


def length(s):
    if s.op == "case":
        return apply("len", length, (s,))
    if s is BOT:
        return BOT
    if s.op == "agg" and s.a[0][0] == "array":
        return num(len(s.a[1]))
    if s.op == "op":
        n = s.a[0]
        if n == "push":
            return add(length(s.a[1][0]), ONE)
        if n == "store":
            return length(s.a[1][0])
        if n == "vec_empty":
            return ZERO
        if n == "subseq":
            return sub(s.a[1][2], s.a[1][1])
        if n == "repeat":
            return s.a[1][1]
        if n == "tab":
            return s.a[1][0]
        if n == "cat":
            return add(length(s.a[1][0]), length(s.a[1][1]))
        if n in ("sorted", "swap_elems", "subset"):
            return length(s.a[1][0])
    if s.op == "mu":
        n = MEMO.get("lengths", {}).get(s)
        if n is not None:
            return n
    t = mk("op", "len", (s,))
    t.ty = "u"
    return t


def update(t, path, v):
    """t with the component at `path` replaced by v."""
    if not path:
        return v
    e = path[0]
    rest = path[1:]
    if t is BOT:
        return BOT
    if t.op == "sym" and t.a[0] == "uninit":
        return update(t, rest, v)       # MaybeUninit and its layers are transparent
    if e[0] == "f":
        kind, var, i = e[1], e[2], e[3]
        if t.op == "enum" or (kind[0] == "adt" and len(ADT_AR.get(kind[1], (0,))) != 1 and kind[1] in ADT_AR and ADT_AR[kind[1]] and ISENUM.get(kind[1])):
            adt = kind[1]
            tag, pl = expand_enum(t, adt)
            p = pl[var]
            if p is None:
                p = (BOT,) * ADT_AR[adt][var]
            p = tuple(update(x, rest, v) if j == i else x for j, x in enumerate(p))
            return mk_enum(adt, tag, tuple(p if w == var else q for w, q in enumerate(pl)))
        if t.op == "agg":
            k, fs = t.a
            fs = tuple(update(x, rest, v) if j == i else x for j, x in enumerate(fs))
            return mk_agg(k, fs)
        n = ADT_AR[kind[1]][0] if kind[0] == "adt" else kind[-1]
        fs = tuple(proj(t, ("f", kind, 0, j)) for j in range(n))
        fs = tuple(update(x, rest, v) if j == i else x for j, x in enumerate(fs))
        return mk_agg(kind, fs)
    if e[0] == "b":
        return mk_agg(("box",), (update(proj(t, e), rest, v),))
    if e[0] == "ix":
        i = e[1]
        nv = update(select(t, i), rest, v) if rest else v
        return store(t, i, nv)
    if e[0] == "mapval":
        nv = update(mapget(t, e[1], e[2]), rest, v) if rest else v
        return mapset(t, e[1], nv)
    if e[0] == "sub":
        nv = update(subseq(t, e[1], e[2]), rest, v)
        return subset(t, e[1], e[2], nv)
    return mk("op", "upd", (t, sym(repr(e)), v))


ISENUM = {}


def subseq(t, lo, hi):
    if t.op == "case":
        return apply("subseq", lambda x: subseq(x, lo, hi), (t,), (lo, hi))
    if t is BOT or lo is BOT or hi is BOT:
        return BOT
    if lo is hi:
        return mk("op", "vec_empty", ())
    if lo is ZERO and hi is length(t):
        return t
    if t.op == "op" and t.a[0] == "subseq":
        b, l0, _ = t.a[1]
        return subseq(b, add(l0, lo), add(l0, hi))
    return mk("op", "subseq", (t, lo, hi))


def subset(t, lo, hi, v):
    """t with the elements lo..hi replaced by those of v (as many)."""
    if t.op == "case" or v.op == "case":
        return apply("subset", lambda a, b: subset(a, lo, hi, b), (t, v), (lo, hi))
    if t is BOT or v is BOT:
        return BOT
    if v is subseq(t, lo, hi):
        return t
    if lo is ZERO and hi is length(t):
        return v
    if v.op == "op" and v.a[0] == "store":
        b, i, x = v.a[1]
        return store(subset(t, lo, hi, b), add(lo, i), x)
    return mk("op", "subset", (t, lo, hi, v))


def store(t, i, v):
    if t.op == "case" or i.op == "case":
        return apply("store", lambda a, b: store(a, b, v), (t, i), (v,))
    if t is BOT:
        return BOT
    if t.op == "agg" and t.a[0][0] == "array" and i.op == "num":
        k = int(i.a[0])
        return mk_agg(t.a[0], tuple(v if j == k else x for j, x in enumerate(t.a[1])))
    if v.op == "proj" and v.a == (t, ("ix", i)):
        return t
    if t.op == "op" and t.a[0] == "store" and t.a[1][1] is i:
        return store(t.a[1][0], i, v)
    if t.op == "op" and t.a[0] == "push" and length(t.a[1][0]) is i:
        return rebuild_op("push", (t.a[1][0], v))
    return mk("op", "store", (t, i, v))


def is_emap(m):
    """A map whose keys are the variants of an enum without payload: one optional value per variant."""
    return m.op == "agg" and m.a[0][0] == "emap"


def emap_empty(adt):
    n = len(ADT_AR[adt])
    return mk_agg(("emap", adt, n), (mk_enum(OPTION, ZERO, ((), (BOT,))),) * n)


def mapset(m, k, v):
    if is_emap(m):
        full = mk_enum(OPTION, ONE, ((), (v,)))
        return mk_agg(m.a[0], tuple(ite(cmp("eq", tag_of(k, m.a[0][1]), num(i), True), full, o) for i, o in enumerate(m.a[1])))
    if k.op == "str" and m.op == "op" and m.a[0] == "mapset" and m.a[1][1].op == "str":
        b, k2, v2 = m.a[1]
        if k2 is k:
            return mk("op", "mapset", (b, k, v))
        if k2.a[0] > k.a[0]:
            return mk("op", "mapset", (mapset(b, k, v), k2, v2))
    if m.op == "case":
        return apply("mapset", lambda m: mapset(m, k, v), (m,), (k, v))
    if m.op == "op" and m.a[0] == "mapset" and m.a[1][1] is k:
        return mapset(m.a[1][0], k, v)
    if v.op == "case":
        # a value that depends on whether the key was there before
        for t in case_tests(v):
            h = t.a[0] if t.op == "t_bool" else t
            if h.op == "op" and h.a[0] == "map_has" and h.a[1][0] is m and h.a[1][1] is k:
                return _mk_case(t, tuple(mapset(m, k, cofactor(v, t, i, {})) for i in range(2)))
    return mk("op", "mapset", (m, k, v))


def closed_map(m):
    """All of its keys are known strings."""
    while m.op == "op" and m.a[0] == "mapset" and m.a[1][1].op == "str":
        m = m.a[1][0]
    return m.op == "op" and m.a[0] == "map_empty"


def mapget(m, k, default=None):
    if m.op == "case" or k.op == "case":
        return apply("mapget", lambda a, b: mapget(a, b, default), (m, k), (default,))
    if m is BOT or k is BOT:
        return BOT
    if is_emap(m):
        r = BOT if default is None else default
        for i, o in enumerate(m.a[1]):
            x = proj(o, ("f", ("adt", OPTION), 1, 0))
            if default is not None:
                x = ite(cmp("eq", tag_of(o, OPTION), ONE, True), x, default)
            r = x if i == 0 else ite(cmp("eq", tag_of(k, m.a[0][1]), num(i), True), x, r)
        return r
    if m.op == "op" and m.a[0] == "mapset" and m.a[1][1] is k:
        return m.a[1][2]
    if m.op == "op" and m.a[0] == "mapset" and closed_map(m):
        r = BOT if default is None else default
        while m.a[0] == "mapset":
            m, k2, v2 = m.a[1]
            r = ite(eq_generic(k, k2), v2, r)
        return r
    if default is None:
        return mk("proj", m, ("key", k))
    return ite(tobool(mk("op", "map_has", (m, k))), mk("proj", m, ("key", k)), default)


# ------------------------------------------------- generic reconstruction ---
def children(t):
    o = t.op
    if o in ("num", "bool", "str", "char", "sym", "bot", "sp", "cont", "fn", "lit"):
        return ()
    out = []
    _collect(t.a, out)
    return out


def _collect(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, out)


_FVE = frozenset()


def free_phis(t):
    if t.fv is not None:
        return t.fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x.fv is not None:
            stack.pop()
            continue
        if x.op == "phi":
            x.fv = frozenset((x,))
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c.fv is None]
        if todo:
            stack.extend(todo)
            continue
        s = _FVE
        for c in ch:
            if c.fv:
                s = s | c.fv if s else c.fv
        x.fv = s
        stack.pop()
    return t.fv


def ref_roots(t):
    """Roots that references inside t point at."""
    if t.rf is not None:
        return t.rf
    stack = [t]
    while stack:
        x = stack[-1]
        if x.rf is not None:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c.rf is None]
        if todo:
            stack.extend(todo)
            continue
        s = _FVE
        for c in ch:
            if c.rf:
                s = s | c.rf if s else c.rf
        if x.op == "ref":
            s = s | frozenset((x.a[0],))
        x.rf = s
        stack.pop()
    return t.rf


def subst(t, m, memo=None):
    """Replaces phis by terms and renormalises."""
    if memo is None:
        memo = {}
    dom = frozenset(m)

    def go(t):
        if not (free_phis(t) & dom):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, go)
        if t in m:
            r = m[t]
        memo[t] = r
        return r
    return go(t)


def replace(t, m):
    """Replaces subterms by terms and renormalises."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = m[t] if t in m else rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def literals(g):
    """Tests with the outcome they must have for the condition to hold."""
    r = []
    while g.op == "case":
        live = [i for i, c in enumerate(g.a[1]) if c is not FALSE and c is not BOT]
        if len(live) != 1:
            break
        r.append((g.a[0], live[0]))
        g = g.a[1][live[0]]
    return r


def regions(g, limit=8):
    """Disjoint conjunctions of tests that make up a condition, or its common
    part when there are too many."""
    out = []

    def go(g, acc):
        if g is FALSE or g is BOT:
            return True
        if g.op != "case":
            out.append(acc)
            return len(out) <= limit
        return all(go(c, acc + [(g.a[0], i)]) for i, c in enumerate(g.a[1]))
    return out if go(g, []) and out else [literals(g)]


def literal_cond(g):
    """Is the condition just the conjunction of its literals?"""
    while g.op == "case":
        live = [c for c in g.a[1] if c is not FALSE and c is not BOT]
        if len(live) != 1:
            return False
        g = live[0]
    return g is TRUE


def outcome(test, lits):
    """Outcome of a test given those of others, or None."""
    for l, i in lits:
        if l is test:
            return i
        if l.op == "t_thr" and test.op == "t_thr" and l.a[0] is test.a[0]:
            if i == 0 and tkey(test) > tkey(l):
                return 0
            if i == 1 and tkey(test) < tkey(l):
                return 1
    return None


def assume(t, lits, memo=None):
    """t where the tests have these outcomes, wherever in t they are asked."""
    if not lits:
        return t
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is None:
            i = outcome(t.a[0], lits) if t.op == "case" else None
            r = memo[t] = go(t.a[1][i]) if i is not None else rebuild(t, go)
        return r
    return go(t)


def rebuild(t, go):
    o = t.op
    if o == "phi":
        return t
    if o == "case":
        test, ch = t.a
        nch = [go(c) for c in ch]
        if test.op == "t_discr":
            x = go(test.a[0])
            tag = tag_of(x, test.a[1])
            r = nch[-1]
            for i in range(len(nch) - 2, -1, -1):
                r = ite(cmp("eq", tag, num(i), True), nch[i], r)
            return r
        if test.op == "t_bool":
            c = tobool(go(test.a[0]))
        elif test.op == "t_eq":
            c = eq_generic(go(test.a[0]), go(test.a[1]))
        else:
            q, k, s = test.a
            nq = go(q)
            integer = all(x.ty in ("u", "i") for mm in _poly(q) for x, e in mm)
            c = ge0(sub(nq, num(k)), bool(s), integer)
        return ite(c, nch[1], nch[0])
    if o == "poly":
        r = ZERO
        for mm, c in t.a[0]:
            p = num(c)
            for x, e in mm:
                y = go(x)
                if e < 0:
                    for _ in range(-e):
                        p = div(p, y)
                else:
                    for _ in range(e):
                        p = mul(p, y)
            r = add(r, p)
        return r
    if o == "paren":
        return go(t.a[0])
    if o == "proj":
        return proj(go(t.a[0]), _rb(t.a[1], go))
    if o == "agg":
        return mk_agg(t.a[0], tuple(go(f) for f in t.a[1]))
    if o == "enum":
        return mk_enum(t.a[0], go(t.a[1]), tuple(None if p is None else tuple(go(f) for f in p) for p in t.a[2]))
    if o == "op":
        n, args = t.a
        na = tuple(go(x) for x in args)
        r = rebuild_op(n, na)
        if r.ty is None and t.ty:
            r.ty = t.ty
        return r
    r = mk(o, *_rb(t.a, go))
    if r.ty is None and t.ty:
        r.ty = t.ty
    return r


def rebuild_op(n, na):
    if n == "len":
        return length(na[0])
    if n == "store":
        return store(*na)
    if n == "subseq":
        if na[2].op == "case" and len(na[2].a[1]) == 2 and not any(c.op == "case" for c in na[2].a[1]):
            return apply("subseq", subseq, na)
        return subseq(*na)
    if n == "subset":
        return subset(*na)
    if n == "tab":
        return tab(*na)
    if n == "cat":
        return cat(*na)
    if n in ("add",):
        return add(*na)
    if n == "mul":
        return mul(*na)
    if n == "div":
        return div(*na)
    if n == "scale":
        return mul(*na)
    if n == "div0":
        return div(na[0], ZERO)
    if any(a.op == "case" for a in na) and n in DIST:
        return opq(n, *na)
    return mk("op", n, na)


# operations built through opq (distributed over gates)
DIST = set()


def _rb(x, go):
    if isinstance(x, T):
        return go(x)
    if isinstance(x, tuple):
        return tuple(_rb(y, go) for y in x)
    return x


def canon(t, guard=None, memo=None, dead=None):
    """Restricts enum payloads to the region where their variant is active.
    With `dead`, what lies outside is that term instead of being left open (the
    result then is a function of the partial value alone)."""
    if memo is None:
        memo = {}
    if guard is None:
        guard = TRUE
    if dead is None:
        dead = BOT
    key = (t, guard)
    r = memo.get(key)
    if r is not None:
        return r
    if t.op == "agg":
        r = mk_agg(t.a[0], tuple(canon(f, guard, memo, dead) for f in t.a[1]))
    elif t.op == "enum":
        adt, tag, pl = t.a
        tag = ite(guard, tag, BOT)
        np_ = []
        for v, p in enumerate(pl):
            if p is None:
                np_.append(None)
                continue
            g = and_(guard, cmp("eq", tag, num(v), True))
            if g is FALSE or g is BOT:
                np_.append(None)
            else:
                np_.append(tuple(canon(f, g, memo, dead) for f in p))
        if dead is not BOT:
            tag = ite(guard, t.a[1], dead)
        r = mk_enum(adt, tag, tuple(np_))
    else:
        r = ite(guard, t, dead) if guard is not TRUE else t
    memo[key] = r
    return r


# ---------------------------------------------------------------- printing --
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    o = t.op
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if o == "num":
        return str(t.a[0])
    if o == "bool":
        return str(t.a[0]).lower()
    if o == "str":
        return repr(t.a[0])
    if o == "sym":
        return str(t.a[0])
    if o == "phi":
        return "φ%s" % (t.a[1],)
    if o == "poly":
        ps = []
        for m, c in t.a[0][:8]:
            f = "*".join(s(x) + ("" if e == 1 else "^%d" % e) for x, e in m)
            ps.append((str(c) + "*" + f if f and c != 1 else f) if f else str(c))
        return "(" + " + ".join(ps) + (" + …" if len(t.a[0]) > 8 else "") + ")"
    if o == "proj":
        e = t.a[1]
        if e[0] == "f":
            return "%s.%s" % (s(t.a[0]), FIELD(e))
        if e[0] == "ix":
            return "%s[%s]" % (s(t.a[0]), s(e[1]))
        if e[0] == "key":
            return "%s[%s]" % (s(t.a[0]), s(e[1]))
        return "*%s" % s(t.a[0])
    if o == "agg":
        k = t.a[0]
        n = k[1].split("::")[-1] if k[0] == "adt" else k[0]
        return "%s{%s}" % (n, ", ".join(s(f) for f in t.a[1]))
    if o == "enum":
        n = t.a[0].split("::")[-1]
        return "%s<%s>{%s}" % (n, s(t.a[1]), "; ".join("%d:%s" % (i, ",".join(s(f) for f in p)) for i, p in enumerate(t.a[2]) if p))
    if o == "case":
        test, ch = t.a
        return "[%s ? %s]" % (show_test(test, depth - 1), " | ".join(s(c) for c in reversed(ch)))
    if o == "op":
        return "%s(%s)" % (t.a[0], ", ".join(s(x) for x in t.a[1]))
    if o == "paren":
        return s(t.a[0])
    if o == "ref":
        return "&%s" % (t.a,)
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else "_" if isinstance(x, tuple) else str(x) for x in t.a))


def show_test(test, depth):
    if test.op == "t_thr":
        return "%s %s %s" % (show(test.a[0], depth), ">" if test.a[2] else ">=", test.a[1])
    if test.op == "t_discr":
        return "variant of " + show(test.a[0], depth)
    if test.op == "t_eq":
        return show(test.a[0], depth) + " == " + show(test.a[1], depth)
    return show(test.a[0], depth)


FIELD = lambda e: str(e[3])
