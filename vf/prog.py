"""Program model over the extracted facts."""
from . import terms as tm


class Anchor(Exception):
    """Something a rule is anchored at is not in the tree."""


class Fn:
    __slots__ = ("j", "id", "path", "name", "crate", "blocks", "argc", "locals", "cfg", "prog", "_own")

    def __init__(self, j, crate, prog):
        self.j = j
        self.id = j["id"]
        self.path = j["path"]
        self.name = j.get("name")
        self.crate = crate
        self.blocks = j["blocks"]
        self.argc = j["argc"]
        self.locals = [prog.ty(crate, l["t"]) for l in j["locals"]]
        self.cfg = None
        self.prog = prog

    def __repr__(self):
        return "Fn(%s)" % self.id

    @property
    def span(self):
        return self.j["span"]

    def local_name(self, i):
        return self.j["locals"][i].get("n")


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self._types = {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.trait_items = {}
        drop = self._twins(facts)
        for c, f in facts.items():
            for k, a in f["adts"].items():
                if k not in self.adts or a["local"]:
                    self.adts[k] = dict(a, crate=c)
        for c, f in facts.items():
            for j in f["fns"]:
                self.fns[j["id"]] = Fn(j, c, self)
            for im in f["impls"]:
                im = dict(im, crate=c)
                im["selfty"] = self.ty(c, im["self"])
                im["targty"] = [self.ty(c, x) for x in im.get("targs", []) if isinstance(x, int)]
                if c.startswith("spec_") and im["selfty"][0] == "adt" and im["selfty"][1] in drop:
                    continue
                self.impls.append(im)
            for t in f["traits"]:
                self.traits[t["id"]] = t
                for it in t["items"]:
                    self.trait_items[it["id"]] = (t["id"], it)
        for k, a in self.adts.items():
            tm.ADT_AR[k] = [len(v["f"]) for v in a["v"]]
            tm.ISENUM[k] = a["kind"] == "enum"
        tm.FIELD = self._field_name

    def _twins(self, facts):
        """A private type of a reference file stands for the private type of the
        repository that has the same variants and fields."""
        def shape(a):
            return (a["kind"], tuple((v["n"], tuple(x["n"] for x in v["f"])) for v in a["v"]))
        real = {}
        for c, f in facts.items():
            if not c.startswith("spec_"):
                for k, a in f["adts"].items():
                    if a["local"]:
                        real.setdefault(shape(a), set()).add(k)
        used = set()
        for c, f in facts.items():
            if not c.startswith("spec_"):
                continue
            ren = {}
            for k, a in list(f["adts"].items()):
                r = real.get(shape(a), ()) if a["local"] and not a["pub"] and a["v"] else ()
                if len(r) == 1 and not (a["kind"] == "struct" and not a["v"][0]["f"]):
                    ren[k] = list(r)[0]
            if not ren:
                continue
            for k in ren:
                if ren[k] not in f["adts"]:
                    f["adts"][ren[k]] = dict(f["adts"][k], local=False)
                del f["adts"][k]
            used |= set(ren.values())

            def walk(x):
                if isinstance(x, dict):
                    return {k: walk(v) for k, v in x.items()}
                if isinstance(x, list):
                    return [walk(v) for v in x]
                return ren.get(x, x) if isinstance(x, str) else x
            for part in ("types", "fns", "impls"):
                f[part] = walk(f[part])
        return used

    def _field_name(self, e):
        k = e[1]
        if k[0] == "adt" and k[1] in self.adts:
            v = self.adts[k[1]]["v"][e[2]]
            if e[3] < len(v["f"]):
                n = v["f"][e[3]]["n"]
                return ("%s.%s" % (v["n"], n)) if self.adts[k[1]]["kind"] == "enum" else n
        return str(e[3])

    # ------------------------------------------------------------- types ---
    def ty(self, crate, i):
        key = (crate, i)
        r = self._types.get(key)
        if r is not None:
            return r
        j = self.facts[crate]["types"][i]
        k = j["k"]
        self._types[key] = ("other", j["s"])
        g = lambda xs: tuple(self.ty(crate, x) if isinstance(x, int) else ("const", x) for x in xs)
        if k in ("bool", "char", "str", "never"):
            r = (k,)
        elif k in ("int", "uint", "float"):
            r = (k, j["n"])
        elif k == "adt":
            r = ("adt", j["def"], g(j["args"]))
        elif k == "array":
            r = ("array", self.ty(crate, j["e"]), j["len"])
        elif k == "slice":
            r = ("slice", self.ty(crate, j["e"]))
        elif k in ("ptr", "ref"):
            r = (k, self.ty(crate, j["e"]), j["mut"])
        elif k == "fndef":
            r = ("fndef", j["def"], g(j["args"]))
        elif k == "fnptr":
            r = ("fnptr", g(j["sig"]))
        elif k == "dyn":
            r = ("dyn", j.get("def"))
        elif k in ("closure", "coroutine"):
            r = (k, j["def"], g(j["up"]))
        elif k == "tuple":
            r = ("tuple", g(j["e"]))
        elif k == "alias":
            r = ("alias", j["ak"], j["def"], g(j["args"]))
        elif k == "param":
            r = ("param", j["n"], j["i"])
        else:
            r = ("other", j["s"])
        self._types[key] = r
        return r

    def subst(self, t, env):
        """env: param name -> type."""
        if not env:
            return t
        k = t[0]
        if k == "param":
            return env.get(t[1], t)
        if k in ("adt", "fndef", "closure", "coroutine"):
            return (k, t[1], tuple(self.subst(x, env) for x in t[2]))
        if k == "array":
            return ("array", self.subst(t[1], env), t[2])
        if k == "slice":
            return ("slice", self.subst(t[1], env))
        if k in ("ptr", "ref"):
            return (k, self.subst(t[1], env), t[2])
        if k == "tuple":
            return ("tuple", tuple(self.subst(x, env) for x in t[1]))
        if k == "alias":
            a = tuple(self.subst(x, env) for x in t[3])
            if t[1] == "proj" and a:
                r = self.assoc_ty(t[2], a[0])
                if r is not None:
                    return r
            return ("alias", t[1], t[2], a)
        return t

    def assoc_ty(self, item, selfty):
        tr = item.rsplit("::", 1)[0]
        for im in self.impls:
            if im.get("trait") == tr:
                env = {}
                if self.unify(im["selfty"], selfty, env):
                    for it in im["items"]:
                        if it["of"] == item and "ty" in it:
                            return self.subst(self.ty(im["crate"], it["ty"]), env)
        return None

    def unify(self, pat, t, env):
        if pat[0] == "param":
            if pat[1] in env:
                return env[pat[1]] == t
            env[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] in ("adt", "fndef"):
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(a, b, env) for a, b in zip(pat[2], t[2]))
        if pat[0] in ("ref", "ptr"):
            return pat[2] == t[2] and self.unify(pat[1], t[1], env)
        if pat[0] in ("slice",):
            return self.unify(pat[1], t[1], env)
        if pat[0] == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, env) for a, b in zip(pat[1], t[1]))
        return pat == t

    def resolve(self, trait, item_name, selfty, targs=None):
        """(fn id, env) of the implementation of a local trait method, or None."""
        if selfty[0] in ("param", "alias", "dyn", "other"):
            return None
        for im in self.impls:
            if im.get("trait") == trait:
                env = {}
                if self.unify(im["selfty"], selfty, env):
                    if targs is not None and len(im["targty"]) == len(targs):
                        if not all(self.unify(a, b, env) for a, b in zip(im["targty"], targs)):
                            continue
                    for it in im["items"]:
                        if it["name"] == item_name:
                            return it["id"], env
                    tr = self.traits.get(trait)
                    if tr:
                        for it in tr["items"]:
                            if it["name"] == item_name and it["default"]:
                                return it["id"], {"Self": selfty}
        return None

    def fn_env(self, fn, args):
        """Map the callee's type parameters to the given type arguments."""
        gen = sorted(fn.j.get("gen", []))
        names = [n for _, n in gen]
        args = [a for a in args if a[0] != "const"]
        if len(names) != len(args):
            # lifetimes are not listed; align from the end
            args = args[-len(names):] if names else []
        return dict(zip(names, args))

    # ------------------------------------------------------------ lookup ---
    def find(self, path):
        """The unique function with this pretty path, e.g. juno::trading::trade."""
        r = [f for f in self.fns.values() if f.path == path]
        if len(r) != 1:
            raise Anchor("function %s: %d definitions found" % (path, len(r)))
        return r[0]

    def find_name(self, name, pred=lambda f: True):
        r = [f for f in self.fns.values() if f.name == name and pred(f)]
        if len(r) != 1:
            raise Anchor("function named %s: %d candidates" % (name, len(r)))
        return r[0]

    def adt_named(self, suffix):
        r = [k for k, a in self.adts.items() if a["local"] and (k == suffix or k.endswith("::" + suffix))]
        if len(r) != 1:
            raise Anchor("type %s: %d definitions found" % (suffix, len(r)))
        return r[0]

    def trait_named(self, name):
        r = [k for k, t in self.traits.items() if t["name"] == name]
        if len(r) != 1:
            raise Anchor("trait %s: %d definitions found" % (name, len(r)))
        return r[0]

    def field_index(self, adt, name, variant=0):
        for i, f in enumerate(self.adts[adt]["v"][variant]["f"]):
            if f["n"] == name:
                return i
        raise Anchor("field %s of %s" % (name, adt))

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v["n"] == name:
                return i
        raise Anchor("variant %s of %s" % (name, adt))

    def impls_of(self, trait):
        return [im for im in self.impls if im.get("trait") == trait]

    def method(self, selfadt, name):
        """Inherent method of a local type."""
        r = []
        for im in self.impls:
            if im.get("trait") is None and im["selfty"][0] == "adt" and im["selfty"][1] == selfadt:
                for it in im["items"]:
                    if it["name"] == name:
                        r.append(it["id"])
        if len(r) != 1 or r[0] not in self.fns:
            raise Anchor("method %s::%s: %d definitions" % (selfadt, name, len(r)))
        return self.fns[r[0]]

    def trait_method(self, trait, selfadt, name):
        for im in self.impls:
            if im.get("trait") == trait and im["selfty"][0] == "adt" and im["selfty"][1] == selfadt:
                for it in im["items"]:
                    if it["name"] == name:
                        return self.fns[it["id"]]
                for it in self.traits[trait]["items"]:
                    if it["name"] == name and it["default"]:
                        return self.fns[it["id"]]
        raise Anchor("%s of %s for %s" % (name, trait, selfadt))


# ------------------------------------------------------------------- CFG ---
class Region:
    """One loop body, or a whole function, with inner loops collapsed."""
    __slots__ = ("header", "blocks", "rep", "children", "rpo", "idom", "join", "succ")


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "yield":
        return [t[2]]
    return []


class CFG:
    def __init__(self, fn):
        n = len(fn.blocks)
        self.succ = [successors(b["t"]) for b in fn.blocks]
        # reachable
        seen = set()
        st = [0]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        self.blocks = seen
        self.pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.ret = [b for b in seen if fn.blocks[b]["t"][0] == "return"]
        # blocks that can reach a return
        live = set()
        st = list(self.ret)
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(self.pred[x])
        self.live = live
        self.idom = dominators(0, seen, lambda b: self.succ[b])
        self.pdom = self._pdoms()
        self.loops = self._loops()
        self.root = None
        self.fn = fn
        self.root = self.region(0, self.blocks, None)

    def _pdoms(self):
        # immediate postdominators over live blocks; virtual exit -1
        live = self.live
        succ = lambda b: [-1] if b in self.ret else [s for s in self.succ[b] if s in live]
        nodes = set(live) | {-1}
        rev = {b: [] for b in nodes}
        for b in live:
            for s in succ(b):
                rev[s].append(b)
        return dominators(-1, nodes, lambda b: rev[b])

    def dominates(self, a, b):
        while b is not None:
            if a == b:
                return True
            b = self.idom.get(b)
        return False

    def _loops(self):
        loops = {}
        for b in self.blocks:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])
        # extend every loop so that it has one exit target
        joins = {}
        for h in sorted(loops, key=lambda h: len(loops[h])):
            body = loops[h]
            j = self._extend(body)
            joins[h] = j
        # after extension loops must stay nested: merge tails into outer loops
        changed = True
        while changed:
            changed = False
            for h in loops:
                for g in loops:
                    if g != h and h in loops[g] and g not in loops[h]:
                        if not loops[h] <= loops[g]:
                            loops[g] |= loops[h]
                            joins[g] = self._extend(loops[g])
                            changed = True
        self.joins = joins
        return loops

    def _extend(self, body):
        while True:
            exits = sorted({s for b in body for s in self.succ[b] if s not in body and s in self.live})
            if not exits:
                return None
            if len(exits) == 1:
                return exits[0]
            # common postdominator of all exits
            chains = []
            for e in exits:
                c = []
                x = e
                while x is not None:
                    c.append(x)
                    x = self.pdom.get(x)
                chains.append(c)
            common = None
            for x in chains[0]:
                if all(x in c for c in chains):
                    common = x
                    break
            # add everything between the exits and the join
            stop = common
            st = list(exits)
            add = set()
            while st:
                x = st.pop()
                if x == stop or x in body or x in add or x not in self.live:
                    continue
                add.add(x)
                st.extend(self.succ[x])
            if not add:
                return common if common != -1 else None
            body |= add
            if common == -1:
                return None

    def region(self, header, blocks, outer):
        r = Region()
        r.header = header
        r.blocks = blocks
        inner = [h for h in self.loops if h in blocks and h != outer and (outer is None or h != header)]
        # maximal inner loops
        maxi = [h for h in inner if not any(g != h and h in self.loops[g] and (g not in self.loops[h] or len(self.loops[g]) > len(self.loops[h])) for g in inner)]
        r.rep = {b: b for b in blocks}
        r.children = {}
        for h in maxi:
            for b in self.loops[h]:
                if b in r.rep:
                    r.rep[b] = h
            r.children[h] = self.region(h, self.loops[h], h)
            r.children[h].join = self.joins[h]
        r.join = None
        succ = {}
        nodes = set(r.rep.values())
        for b in blocks:
            x = r.rep[b]
            for s in self.succ[b]:
                if s in blocks:
                    y = r.rep[s]
                    if y != x and s != header:
                        succ.setdefault(x, set()).add(y)
        r.succ = {x: sorted(succ.get(x, ())) for x in nodes}
        r.rpo = rpo(r.rep[header], lambda b: r.succ[b])
        r.idom = dominators(r.rep[header], set(r.rpo), lambda b: r.succ[b])
        return r


def rpo(start, succ):
    seen = set()
    out = []
    st = [(start, iter(succ(start)))]
    seen.add(start)
    while st:
        x, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ(s))))
                break
        else:
            out.append(x)
            st.pop()
    out.reverse()
    return out


def dominators(start, nodes, succ):
    order = rpo(start, lambda b: [s for s in succ(b) if s in nodes])
    idx = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ(b):
            if s in idx:
                pred[s].append(b)
    idom = {start: None}
    done = {start: start}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in done:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = done[x]
                            while idx[y] > idx[x]:
                                y = done[y]
                        new = x
            if done.get(b) != new:
                done[b] = new
                changed = True
    for b in order[1:]:
        idom[b] = done[b]
    return idom
