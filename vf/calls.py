"""Call graph over the MIR of the workspace.

A call is resolved to its instance where the compiler could; a call through a
trait whose receiver is a type parameter or a trait object goes to every
implementation in the workspace.  Closures, function values, constants and
statics a body mentions count as called by it (an over-approximation).
"""
from .models import strip


def mentions(x, out):
    """Function, closure, constant and static references inside a MIR node."""
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            if x[0] == "fn" and len(x) > 1 and isinstance(x[1], dict):
                out.append(("fn", x[1]))
                return
            if x[0] in ("closure", "coroutine") and len(x) > 1 and isinstance(x[1], str):
                out.append(("body", x[1]))
            if x[0] == "static" and len(x) > 1 and isinstance(x[1], str):
                out.append(("static", x[1]))
                return
            if x[0] == "const" and len(x) > 1 and isinstance(x[1], dict):
                out.append(("const", x[1].get("def")))
                mentions(x[1].get("v"), out)
                return
        for y in x:
            mentions(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            mentions(y, out)


class Site:
    """One mention of something callable."""
    __slots__ = ("fn", "block", "o", "kind", "span", "called", "targets", "args")

    @property
    def name(self):
        return strip(self.o["p"])


class Graph:
    def __init__(self, prog, skip=lambda f: f.crate.startswith("spec_")):
        self.prog = prog
        self.sites = {}
        self.edges = {}
        self.statics = {}
        impls = {}
        for im in prog.impls:
            if im.get("trait"):
                for it in im["items"]:
                    if "of" in it and it.get("id"):
                        impls.setdefault(it["of"], []).append(it["id"])
        self.impl_of = impls
        for f in prog.fns.values():
            if skip(f):
                continue
            self._scan(f)

    def _targets(self, o):
        prog = self.prog
        r = o.get("r")
        if r is not None and r["def"] in prog.fns:
            f = prog.fns[r["def"]]
            # a provided method stands for itself and what overrides it
            if f.j.get("in_trait"):
                return [f.id] + [i for i in self.impl_of.get(f.id, ()) if i in prog.fns]
            return [f.id]
        if "trait" in o:
            t = [i for i in self.impl_of.get(o["def"], ()) if i in prog.fns]
            if o["def"] in prog.fns:
                t.append(o["def"])
            if r is None or not t:
                return t
            return []
        return [o["def"]] if o["def"] in prog.fns else []

    def _scan(self, f):
        sites, edges, statics = [], [], []
        for bi, b in enumerate(f.blocks):
            t = b.get("t")
            for node, term in [(s, False) for s in b.get("s", [])] + [(t, True)]:
                if not node:
                    continue
                out = []
                mentions(node, out)
                span = node[-1] if isinstance(node[-1], str) else f.span
                for k, o in out:
                    if k == "fn":
                        s = Site()
                        s.fn, s.block, s.o, s.span = f, bi, o, span
                        s.called = term and node[0] == "call" and node[1][0] == "k" and node[1][1]["v"][0] == "fn" and node[1][1]["v"][1] is o
                        s.args = node[2] if s.called else None
                        s.targets = self._targets(o)
                        sites.append(s)
                        edges += [(x, span) for x in s.targets]
                    elif k == "static":
                        statics.append((o, span))
                        if o in self.prog.fns:
                            edges.append((o, span))
                    elif o in self.prog.fns:
                        edges.append((o, span))
        self.sites[f.id], self.edges[f.id], self.statics[f.id] = sites, edges, statics

    def reach(self, entries, stop=()):
        """fn id -> the function it was reached from."""
        out = {}
        todo = [(e, None) for e in entries]
        while todo:
            x, p = todo.pop(0)
            if x in out or x in stop or x not in self.edges:
                continue
            out[x] = p
            for y, _ in self.edges[x]:
                if y not in out:
                    todo.append((y, x))
        return out

    def path(self, reach, x):
        r = []
        while x is not None:
            r.append(self.prog.fns[x].path)
            x = reach[x]
        return " <- ".join(r)
