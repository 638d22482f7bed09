"""Bounds of drawn values: which outcomes of a test are possible when the
draws in it lie in their ranges and the loops that draw again have ended.

A conclusion is a sum of known inequalities with positive factors, found by
eliminating one atom after the other; what is not found counts as possible."""
from fractions import Fraction
from . import terms as tm
from .terms import num, TRUE, FALSE, BOT


def linear(t):
    return dict(tm._poly(t)) if t.op in ("poly", "num") else tm._poly(t)


def draws(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "op" and x.a[0] == "rand:gen_range":
            yield x
        todo += tm.children(x)


def ends(x):
    """Lower and upper end of a drawn range, and whether the upper one is in it."""
    r = x.a[1][-1]
    fs = [c for c in tm.children(r) if c.op != "bool"]
    if len(fs) < 2:
        return None
    return fs[0], fs[1], "nclusive" in repr(r.a[0]) or "rangei" in repr(r.a[0])


def span(t, open_=()):
    """Numbers between which a value lies; None where it is not known."""
    if t.op == "num":
        return Fraction(t.a[0]), Fraction(t.a[0])
    if t.op == "case":
        return join([span(c, open_) for c in t.a[1] if not unreached(c)])
    if carried(t):
        if t in open_:
            return ()
        return join([span(c, open_ + (t,)) for c in t.a if not unreached(c)])
    if t.op == "op" and t.a[0] == "rand:gen_range":
        e = ends(t)
        if e is None:
            return None, None
        lo, hi = span(e[0], open_), span(e[1], open_)
        lo, hi = (lo or (None, None))[0], (hi or (None, None))[1]
        if hi is not None and not e[2] and whole(e[0]) and whole(e[1]) and t.ty != "f":
            hi -= 1
        return lo, hi
    return None, None


def join(xs):
    xs = [x for x in xs if x != ()]
    if not xs:
        return ()
    lo, hi = [x[0] for x in xs], [x[1] for x in xs]
    return None if None in lo else min(lo), None if None in hi else max(hi)


def carried(t):
    return t.op == "mu1"


def unreached(t):
    return t is BOT or t.op in ("dead", "cont")


class Facts:
    def __init__(self, seen=()):
        self.list = list(seen)      # (poly as dict, strict): sum >= 0
        self.known = set()

    def copy(self):
        f = Facts(self.list)
        f.known = set(self.known)
        return f

    def add(self, a, b, strict, integer=False):
        """a >= b, or a > b."""
        d = tm.sub(a, b)
        if strict and integer:
            d, strict = tm.sub(d, tm.ONE), False
        if d.op == "case" or d is BOT:
            return
        self.list.append((linear(d), strict))
        self.drawn(d)

    def atoms(self, d):
        for m in d:
            for x, _ in m:
                if carried(x) and x not in self.known:
                    self.known.add(x)
                    lo, hi = span(x) or (None, None)
                    if lo is not None:
                        self.list.append((linear(tm.sub(x, num(lo))), False))
                    if hi is not None:
                        self.list.append((linear(tm.sub(num(hi), x)), False))

    def drawn(self, t):
        for x in list(draws(t)):
            if x in self.known:
                continue
            self.known.add(x)
            e = ends(x)
            if e is None:
                continue
            self.add(x, e[0], False)
            self.add(e[1], x, not e[2], integer=x.ty in ("u", "i") or whole(e[0]) and whole(e[1]) and x.ty != "f")

    def holds(self, d, strict, depth=6):
        """Is the linear form d known to be >= 0 (> 0)?"""
        for m in d:
            for x, _ in m:
                self.drawn(x)
        self.atoms(d)
        for f, _ in list(self.list):
            self.atoms(f)
        return self._holds(d, strict, depth)

    def _holds(self, d, strict, depth):
        d = {m: c for m, c in d.items() if c}
        rest = [m for m in d if m]
        if not rest:
            c = d.get((), Fraction(0))
            return c > 0 or c == 0 and not strict
        if depth == 0:
            return False
        m = min(rest, key=repr)
        for f, s in self.list:
            k = f.get(m)
            if not k or k * d[m] < 0:
                continue
            l = d[m] / k
            r = dict(d)
            for n, c in f.items():
                r[n] = r.get(n, Fraction(0)) - l * c
            r.pop(m, None)
            if self._holds(r, strict and not s, depth - 1):
                return True
        return False

    def outcome(self, test):
        """True, False, or None when both are possible."""
        if test.op != "t_thr":
            return None
        q, c, s = test.a
        d = dict(linear(q))
        d[()] = d.get((), Fraction(0)) - Fraction(c)
        if self.holds(d, bool(s)):
            return True
        if self.holds({m: -k for m, k in d.items()}, not s):
            return False
        return None

    def learn(self, test, i):
        if test.op != "t_thr":
            return
        q, c, s = test.a
        if i:
            self.add(q, num(c), bool(s))
        else:
            # not (q >= c): c > q
            integer = not s and all(k.denominator == 1 for k in linear(q).values()) and Fraction(c).denominator == 1 and all(x.ty in ("u", "i") for m in linear(q) for x, _ in m)
            self.add(num(c), q, not s, integer=integer)


def whole(t):
    return t.op == "num" and Fraction(t.a[0]).denominator == 1 and t.ty != "f"


# ------------------------------------------------------------------ loops --
def skeleton(b):
    """A loop's body with its results blanked, and the results in order."""
    out = []

    def go(t):
        if t.op == "case":
            return ("case", t.a[0], tuple(go(c) for c in t.a[1]))
        if again(t):
            return "again"
        if t is BOT:
            return "never"
        out.append(t)
        return "done"
    return go(b), out


def again(t):
    return t.op == "cont"


def exits(sk, path=()):
    """Paths to the results of a skeleton, in order."""
    if sk == "done":
        yield path
    elif isinstance(sk, tuple):
        for i, c in enumerate(sk[2]):
            yield from exits(c, path + ((sk[1], i),))


def loops(t):
    """The loops whose result a test of t compares."""
    seen, todo = [], [t]
    done = set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if x.op == "mu":
            seen.append(x)
            continue
        if x.op == "op" and str(x.a[0]).startswith("rand:"):
            continue
        todo += tm.children(x)
    return seen


def possible(g, facts, outside, budget=None):
    """A path on which the condition g is false, or None.  Tests that outside
    says are not about drawn values are taken to hold."""
    budget = budget if budget is not None else [4000]
    ms = loops(g)
    if ms:
        groups = {}
        for m in ms:
            sk, res = skeleton(m.a[0] if isinstance(m.a[0], tm.T) else m.a[-1])
            groups.setdefault(sk, []).append((m, res))
        sk, group = sorted(groups.items(), key=lambda kv: repr(kv[0]))[0]
        for j, path in enumerate(exits(sk)):
            f = facts.copy()
            for test, i in path:
                f.learn(test, i)
            r = possible(tm.replace(g, {m: res[j] for m, res in group}), f, outside, budget)
            if r is not None:
                return r
        return None
    return walk(g, facts, outside, budget)


def walk(g, facts, outside, budget):
    if g is TRUE or g is BOT:
        return None
    if g is FALSE:
        return ()
    budget[0] -= 1
    if budget[0] < 0:
        raise tm.Limit("too many cases")
    if g.op != "case":
        return (g,)
    test, ch = g.a[0], g.a[1]
    o = facts.outcome(test)
    for i, c in enumerate(ch):
        if o is not None and i != int(o):
            continue
        if outside(test) and c is FALSE:
            continue
        f = facts.copy()
        f.learn(test, i)
        r = walk(c, f, outside, budget)
        if r is not None:
            return ((test, i),) + r
    return None
