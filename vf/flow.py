"""Value-flow summaries of MIR bodies.

One forward dataflow pass per body, in reverse post order, over the term domain
of terms.py.  States are merged at every control-flow join (no path is
followed separately); a loop is summarised by the recurrence of the places it
carries, found by a fixpoint of the pass over its body.  Calls of functions of
the analysed crates are summarised in place; library functions are modelled in
models.py; everything else is an uninterpreted operation on the values it can
read, and whatever it can write through a mutable reference is replaced by an
uninterpreted result of the call.
"""
from fractions import Fraction
import struct
from . import terms as tm
from .terms import (T, mk, num, TRUE, FALSE, BOT, UNIT, ite, and_, or_, not_, join, proj, update,
                    mk_agg, enum_val, tag_of, cmp, add, sub, mul, tobool, opq, opq_flat, sym)
from .prog import CFG, Anchor

OPTION = "core::option::Option"
RESULT = "core::result::Result"
POLL = "core::task::poll::Poll"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"

SKIP = 2  # pseudo variant of an Option produced by a filtering iterator
SKIPPED = -977  # its discriminant


class Unsupported(Exception):
    pass


def some(v):
    return enum_val(OPTION, 1, (v,))


def none():
    return enum_val(OPTION, 0, ())


def opt(has, v):
    """Option from a gate and a value."""
    tag = ite(has, num(1), num(0))
    return tm.mk_enum(OPTION, tag, ((), (v,)))


INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}

_POW = {}


class Flow:
    Unsupported = Unsupported

    cut = None

    def __init__(self, prog, opaque=(), max_depth=24, devirt=True):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_pred = None
        self.inline_dyn = False
        self.fid = 0
        self.uid = 0
        self.stack = []
        self.max_depth = max_depth
        self.devirt = devirt
        self.rootty = {}
        self.stats = {"bodies": set(), "calls": 0, "opaque_calls": 0, "loops": 0, "blocks": 0}
        self.events = None      # optional hook on calls: f(ev, fn, callee, args)
        self.panics = []
        self.slices = []        # (string, index) for every place a string is cut at
        self.lazies = {}
        self.pend = TRUE        # what holds after the calls made by the current block
        self.inloop = 0
        from . import models
        self.models = models

    # ---------------------------------------------------------- memory -----
    def root_initial(self, root):
        if root[0] == "P":
            p = root[1]
            if p.op == "str":
                return p
            if p.op == "op" and p.a[0] == "&":
                return p.a[1][0]
            return mk("deref", p)
        if root[0] in ("S", "Z"):
            return self.lazy(root[1])
        return None

    def lazy(self, path):
        """What a lazily initialised static is initialised to."""
        if path in self.lazies:
            return self.lazies[path]
        v = sym("static:" + path)
        f = self.prog.fns.get(path)
        if f is not None and f.argc == 0 and path not in self.stack:
            r = self.run(f, [], {}, {})
            if r is not None and r[0].op == "agg" and r[0].a[0] == ("lazy",):
                r = self.call_value(r[1], r[0].a[1][0], [])
                if r is not None:
                    v = self.models.deep(self, r[1], r[0])
        self.lazies[path] = v
        return v

    def mem_get(self, mem, root):
        v = mem.get(root)
        if v is None:
            v = self.root_initial(root)
            if v is None:
                return BOT
        return v

    def load_path(self, v, path):
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        if e[0] == "sub":
            return tm.subseq(v, e[1], e[2])
        if e[0] == "mapval":
            return tm.mapget(v, e[1], e[2])
        return proj(v, e)

    def load(self, mem, ref):
        """Value behind a reference term."""
        if ref.op == "case":
            return tm.apply("load%d" % id(mem), lambda r: self.load(mem, r), (ref,)) if False else \
                join(ref.a[0], [self.load(mem, c) for c in ref.a[1]])
        if ref is BOT:
            return BOT
        if ref.op == "ref":
            return self.load_path(self.mem_get(mem, ref.a[0]), ref.a[1])
        if ref.op == "agg" and ref.a[0][0] == "box":
            return ref.a[1][0]
        return self.mem_get(mem, ("P", ref))

    def store_ref(self, mem, ref, val):
        if ref.op == "case":
            leaves = []
            self._leaves(ref, TRUE, leaves)
            at = {}
            for g, r in leaves:
                at[r] = or_(at[r], g) if r in at else g
            for r in sorted(at, key=tm.tkey):
                g = at[r]
                old = self.load(mem, r)
                self.store_ref(mem, r, ite(g, val, old))
            return
        if ref is BOT:
            return
        if ref.op == "ref":
            root, path = ref.a
        else:
            root, path = ("P", ref), ()
        mem[root] = update(self.mem_get(mem, root), path, val)

    def _leaves(self, t, g, out):
        if t.op == "case":
            test, ch = t.a
            for i, c in enumerate(ch):
                sel = join(test, [TRUE if j == i else FALSE for j in range(len(ch))])
                self._leaves(c, and_(g, sel), out)
        elif t is not BOT:
            out.append((g, t))

    # ---------------------------------------------------------- places -----
    def sub_ty(self, fr, t):
        return self.prog.subst(t, fr.env)

    def place(self, fr, mem, p):
        """-> list of (guard, root, path), type"""
        loc, projs = p
        t = self.sub_ty(fr, fr.fn.locals[loc])
        cur = [(TRUE, ("L", fr.fid, loc), ())]
        variant = 0
        for e in projs:
            if e == "*":
                if t[0] == "adt" and t[1].endswith("boxed::Box"):
                    cur = [(g, r, pa + (("b",),)) for g, r, pa in cur]
                    t = t[2][0]
                    continue
                nxt = []
                for g, r, pa in cur:
                    v = self.load_path(self.mem_get(mem, r), pa)
                    lv = []
                    self._leaves(v, g, lv)
                    for g2, x in lv:
                        if x.op == "ref":
                            nxt.append((g2, x.a[0], x.a[1]))
                        elif x.op == "agg" and x.a[0][0] == "box":
                            nxt.append((g2, r, pa + (("b",),)))
                        else:
                            root = ("P", x)
                            nxt.append((g2, root, ()))
                cur = nxt
                t = t[1] if t[0] in ("ref", "ptr") else ("other", "?")
            elif e in ("opaque", "unbind"):
                pass
            elif e[0] == "f":
                ft = self.sub_ty(fr, self.prog.ty(fr.fn.crate, e[2]))
                if t[0] == "adt":
                    el = ("f", ("adt", t[1]), variant, e[1])
                elif t[0] == "tuple":
                    el = ("f", ("tuple", len(t[1])), 0, e[1])
                elif t[0] in ("closure", "coroutine"):
                    el = ("f", (t[0], t[1], len(t[2])), 0, e[1])
                else:
                    el = ("f", ("other", 0), 0, e[1])
                cur = [(g, r, pa + (el,)) for g, r, pa in cur]
                t = ft
                variant = 0
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                iv = self.mem_get(mem, ("L", fr.fid, e[1]))
                cur = [(g, r, pa + (("ix", iv),)) for g, r, pa in cur]
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
            elif e[0] == "ci":
                nxt = []
                for g, r, pa in cur:
                    if e[3]:
                        s = self.load_path(self.mem_get(mem, r), pa)
                        iv = sub(tm.length(s), num(e[1]))
                    else:
                        iv = num(e[1])
                    nxt.append((g, r, pa + (("ix", iv),)))
                cur = nxt
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
            elif e[0] == "ss":
                nxt = []
                for g, r, pa in cur:
                    s = self.load_path(self.mem_get(mem, r), pa)
                    hi = sub(tm.length(s), num(e[2])) if e[3] else num(e[2])
                    nxt.append((g, r, pa + (("sub", num(e[1]), hi),)))
                cur = nxt
            else:
                raise Unsupported("projection %s" % (e,))
        return cur, t

    def typed(self, v, t):
        """Attach type knowledge to opaque scalars read at a typed place."""
        k = t[0]
        if k == "bool":
            if v.op != "bool":
                v = tobool(v)
        elif k in ("uint", "int", "float"):
            if v.op in ("proj", "sym", "deref", "op", "phi", "mu") and v.ty is None:
                v.ty = {"uint": "u", "int": "i", "float": "f"}[k]
            elif v.op == "case":
                self._typed_case(v, {"uint": "u", "int": "i", "float": "f"}[k], set())
        elif k == "adt" and v.op in ("proj", "sym", "deref", "op", "phi", "mu") and v.ty is None and t[1] in FIELDLESS():
            v.ty = ("e", t[1])
        return v

    def _typed_case(self, v, k, seen):
        if v in seen:
            return
        seen.add(v)
        if v.op == "case":
            for c in v.a[1]:
                self._typed_case(c, k, seen)
        elif v.op in ("proj", "sym", "deref", "op", "phi", "mu") and v.ty is None:
            v.ty = k

    def read(self, fr, mem, p):
        cur, t = self.place(fr, mem, p)
        r = None
        for g, root, path in cur:
            v = self.load_path(self.mem_get(mem, root), path)
            r = v if r is None else ite(g, v, r)
        if r is None:
            r = BOT
        return self.typed(r, t), t

    def write(self, fr, mem, p, v):
        cur, t = self.place(fr, mem, p)
        for g, root, path in cur:
            old = self.mem_get(mem, root)
            if len(cur) > 1:
                nv = ite(g, v, self.load_path(old, path))
            else:
                nv = v
            mem[root] = update(old, path, nv) if path else nv

    def ref_of(self, fr, mem, p):
        cur, t = self.place(fr, mem, p)
        r = None
        for g, root, path in cur:
            if root[0] == "P" and path == ():
                x = root[1]
            else:
                x = mk("ref", root, path)
            r = x if r is None else ite(g, x, r)
        return BOT if r is None else r

    # -------------------------------------------------------- operands -----
    def const(self, fr, c):
        t = self.sub_ty(fr, self.prog.ty(fr.fn.crate, c["t"]))
        return self.cval(fr, c["v"], t), t

    def cval(self, fr, v, t):
        k = v[0]
        if k == "int":
            return num(int(v[1]))
        if k == "bool":
            return tm.boolean(v[1])
        if k == "char":
            return mk("char", v[1])
        if k == "float":
            return float_const(int(v[1]), v[2])
        if k == "str":
            return tm.string(v[1])
        if k == "fn":
            return mk("fn", FnRef(fr.fn.crate, v[1], tuple(sorted(fr.env.items()))))
        if k == "agg":
            fs = []
            for f in v[2]:
                ft = self.prog.ty(fr.fn.crate, f["t"])
                fs.append(self.cval(fr, f["v"], ft))
            return self.build(t, v[1], fs)
        if k == "zst":
            if t[0] == "tuple" and not t[1]:
                return UNIT
            if t[0] == "closure":
                return mk_agg(("closure", t[1], len(t[2])), ())
            return mk("lit", "zst", str(t))
        if k == "const":
            o = v[1]
            if "v" in o and o["v"][0] not in ("opaque",):
                return self.cval(fr, o["v"], t)
            f = self.prog.fns.get(o["def"])
            if f is not None and f.argc == 0:
                args = [self.sub_ty(fr, self.prog.ty(fr.fn.crate, a)) for a in o["args"] if isinstance(a, int)]
                r = self.run(f, [], {}, self.prog.fn_env(f, args))
                if r is not None:
                    return r[0]
            return sym("const:" + o["def"])
        if k == "static":
            return mk("ref", ("S", v[1]), ())
        if k == "constty":
            if v[1].startswith('"') and v[1].endswith('"'):
                return tm.string(v[1][1:-1])
            return sym("constty:" + v[1])
        if k == "bytes":
            return mk("lit", "bytes", v[1])
        return mk("lit", "opaque", str(v[1]) if len(v) > 1 else "", str(t))

    def build(self, t, variant, fs):
        if t[0] == "adt":
            if tm.ISENUM.get(t[1]):
                return enum_val(t[1], variant, fs)
            return mk_agg(("adt", t[1]), fs)
        if t[0] == "tuple":
            return mk_agg(("tuple", len(fs)), fs)
        if t[0] == "array":
            return mk_agg(("array", len(fs)), fs)
        return mk_agg(("other", 0), fs)

    def operand(self, fr, mem, o):
        if o[0] in ("c", "m"):
            return self.read(fr, mem, o[1])
        if o[0] == "k":
            return self.const(fr, o[1])
        return FALSE, ("bool",)

    # --------------------------------------------------------- rvalues -----
    def rvalue(self, fr, mem, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, mem, r[1])[0]
        if k in ("ref", "rawptr", "reborrow"):
            return self.ref_of(fr, mem, r[2] if k != "rawptr" else r[1])
        if k == "bin":
            a, ta = self.operand(fr, mem, r[2])
            b, tb = self.operand(fr, mem, r[3])
            return self.binop(r[1], a, b, ta)
        if k == "un":
            a, ta = self.operand(fr, mem, r[2])
            if r[1] == "Not":
                return not_(tobool(a)) if ta[0] == "bool" else opq("bitnot", a)
            if r[1] == "Neg":
                return tm.neg(a)
            if r[1] == "PtrMetadata":
                return tm.length(self.load(mem, a))
            return opq("un:" + r[1], a)
        if k == "cast":
            return self.cast(fr, mem, r)
        if k == "discr":
            v, t = self.read(fr, mem, r[1])
            if t[0] != "adt":
                return opq("discr", v)
            ad = self.prog.adts[t[1]]
            tag = tag_of(v, t[1])
            ds = [int(x["d"]) for x in ad["v"]]
            if t[1] == OPTION and has_skip(tag, SKIP):
                return tm.apply("optdiscr", lambda x: num(SKIPPED) if x.op == "num" and x.a[0] == SKIP else x, (tag,))
            if ds == list(range(len(ds))):
                return tm.tag_cases(tag, len(ds))
            return tm.apply("discrval", lambda x: num(ds[int(x.a[0])]) if x.op == "num" and int(x.a[0]) < len(ds) else (num(SKIPPED) if x.op == "num" else x), (tag,), (t[1],))
        if k == "agg":
            fs = [self.operand(fr, mem, o)[0] for o in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                if tm.ISENUM.get(kk[1]):
                    return enum_val(kk[1], kk[2], fs)
                return mk_agg(("adt", kk[1]), fs)
            if kk[0] == "tuple":
                return mk_agg(("tuple", len(fs)), fs)
            if kk[0] == "array":
                return mk_agg(("array", len(fs)), fs)
            if kk[0] in ("closure", "coroutine"):
                self.closure_env[kk[1]] = fr.env
                return mk_agg((kk[0], kk[1], len(fs)), fs)
            raise Unsupported("aggregate " + kk[0])
        if k == "repeat":
            v, _ = self.operand(fr, mem, r[1])
            if r[2] is not None and r[2] <= 16:
                return mk_agg(("array", r[2]), (v,) * r[2])
            return mk("op", "repeat", (v, num(r[2]) if r[2] is not None else sym("N")))
        raise Unsupported("rvalue " + k)

    closure_env = {}

    def binop(self, op, a, b, t):
        integer = t[0] in ("int", "uint", "char", "bool")
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": add, "S": sub, "M": mul}[op[0]]
            return mk_agg(("tuple", 2), (f(a, b), FALSE))
        if op == "Div":
            if t[0] == "float":
                return tm.div(a, b)
            return idiv(a, b)
        if op == "Rem":
            if t[0] == "float":
                return opq("fmod", a, b)
            return irem(a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if t[0] == "bool":
                a, b = tobool(a), tobool(b)
                e = ite(a, b, not_(b))
                if op == "Eq":
                    return e
                if op == "Ne":
                    return not_(e)
            if t[0] in ("char", "str", "ptr", "ref", "adt", "fnptr", "other"):
                e = tm.eq_generic(a, b) if op in ("Eq", "Ne") else tobool(opq("cmp" + op, a, b))
                return not_(e) if op == "Ne" else e
            return cmp(op.lower(), a, b, t[0] in ("int", "uint"))
        if op in ("BitAnd", "BitOr", "BitXor") and t[0] == "bool":
            a, b = tobool(a), tobool(b)
            return {"BitAnd": and_(a, b), "BitOr": or_(a, b), "BitXor": ite(a, not_(b), b)}[op]
        if op == "BitXor" or op == "BitAnd" or op == "BitOr":
            if a.op == "num" and b.op == "num":
                x, y = int(a.a[0]), int(b.a[0])
                return num({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            if a.id > b.id:
                a, b = b, a
        if op in ("Shl", "Shr") and a.op == "num" and b.op == "num":
            return num(int(a.a[0]) << int(b.a[0]) if op == "Shl" else int(a.a[0]) >> int(b.a[0]))
        return opq("bin:" + op, a, b)

    def cast(self, fr, mem, r):
        kind = r[1]
        a, ta = self.operand(fr, mem, r[2])
        t = self.sub_ty(fr, self.prog.ty(fr.fn.crate, r[3]))
        if kind == "IntToInt":
            if ta[0] == "bool":
                return ite(tobool(a), num(1), num(0))
            if t[0] in ("int", "uint") and ta[0] in ("int", "uint"):
                if a.op == "num":
                    return num(wrap(int(a.a[0]), t))
                bt, bf = INT_BITS[t[1]], INT_BITS[ta[1]]
                if bt >= bf and (t[0] == ta[0] or (t[0] == "int" and bt > bf)):
                    return a
                return tm.apply("cast:" + t[1], lambda x: num(wrap(int(x.a[0]), t)) if x.op == "num" else opq("cast:" + t[1], x), (a,), t)
            return opq("cast:" + str(t[-1]), a)
        if kind in ("IntToFloat", "FloatToFloat"):
            return a
        if kind == "FloatToInt":
            return f2i(a, t[1])
        if kind.startswith("PointerCoercion"):
            return self.unsized(fr, mem, a, ta)
        if kind in ("PtrToPtr", "Subtype", "BoxDerefTransmute"):
            return a
        return opq("cast:" + kind, a)

    def unsized(self, fr, mem, a, ta):
        """A shared slice of a fixed array: the array's length is in its type."""
        if ta[0] != "ref" or ta[2] or ta[1][0] != "array":
            return a
        n = ta[1][2]
        if a.op != "ref" or not isinstance(n, int) or n > 8:
            return a
        v = self.load(mem, a)
        if v.op == "agg" or v is BOT:
            return a
        self.uid += 1
        root = ("X", "t", self.uid)
        et = ta[1][1]
        mem[root] = mk_agg(("array", n), tuple(self.typed(tm.select(v, num(i)), et) for i in range(n)))
        return mk("ref", root, ())

    # ------------------------------------------------------------ bodies ---
    def cfg(self, fn):
        if fn.cfg is None:
            fn.cfg = CFG(fn)
        return fn.cfg

    def run(self, fn, args, mem, env):
        """Summary of one call: (result, memory) or None if it cannot return."""
        if len(self.stack) > self.max_depth or self.stack.count(fn.id) > 1:
            raise Unsupported("recursion into " + fn.id)
        self.fid += 1
        fr = Frame(self.fid, fn, env)
        self.stats["bodies"].add(fn.id)
        mem = dict(mem)
        for i, a in enumerate(args):
            mem[("L", fr.fid, i + 1)] = a
        self.stack.append(fn.id)
        try:
            cfg = self.cfg(fn)
            out = self.region(fr, cfg.root, mem)
        finally:
            self.stack.pop()
        if out is None:
            return None
        g, m = out
        if not self.stack:
            self.root_guard = g
        ret = m.get(("L", fr.fid, 0))
        if ret is None:
            rt = self.sub_ty(fr, fn.locals[0])
            ret = UNIT if rt == ("tuple", ()) else BOT
        if g is not TRUE and not self.inloop and not tm.free_phis(g):
            self.pend = and_(self.pend, g)
            if not self.stack:
                ret = ite(g, ret, BOT)
        # drop this frame's locals unless something still points at them
        m = {k: v for k, v in m.items() if not (k[0] == "L" and k[1] == fr.fid) or refs_frame(ret, fr.fid)}
        return ret, m

    def region(self, fr, reg, mem):
        """Runs a region from its header; for a function: (guard, mem) at return.
        For a loop: dict(latch=(g, mem), exit=(g, mem))."""
        is_loop = reg.join is not None or reg.header in self.cfg(fr.fn).loops and reg is not self.cfg(fr.fn).root
        inc = {reg.rep[reg.header]: [(None, TRUE, mem)]}
        conds = {}
        latch, exits, rets = [], [], []
        for b in reg.rpo:
            edges = inc.pop(b, None)
            if not edges:
                continue
            cond, m = self.merge(reg, b, edges, conds)
            conds[b] = cond
            if cond is FALSE or cond is BOT:
                continue
            self.stats["blocks"] += 1
            if b in reg.children:
                outs = self.loop(fr, reg.children[b], m)
            else:
                outs = self.block(fr, b, m)
            for tgt, g, m2 in outs:
                if g is FALSE or g is BOT:
                    continue
                if tgt == "ret":
                    rets.append((b, g, m2))
                elif tgt == "skip":
                    latch.append((b, g, m2))
                elif tgt in reg.blocks and tgt == reg.header:
                    latch.append((b, g, m2))
                elif tgt in reg.blocks:
                    inc.setdefault(reg.rep[tgt], []).append((b, g, m2))
                else:
                    exits.append((b, g, m2, tgt))
        self.cur_reg = reg
        if reg is self.cfg(fr.fn).root:
            if not rets:
                return None
            g, m = self.merge_abs(reg, [(b, g, m) for b, g, m in rets], conds)
            return g, m
        lt = self.merge_abs(reg, latch, conds) if latch else None
        live = self.cfg(fr.fn).live
        ex = [(b, g, m) for b, g, m, t in exits if t in live] + rets
        ex = self.merge_abs(reg, ex, conds) if ex else None
        return {"latch": lt, "exit": ex}

    def chain(self, reg, p, d, conds):
        g = TRUE
        x = p
        while x is not None and x != d:
            g = and_(conds[x], g)
            x = reg.idom.get(x)
        return g

    def merge(self, reg, b, edges, conds):
        if len(edges) == 1 and edges[0][0] is None:
            return TRUE, dict(edges[0][2])
        d = reg.idom[b]
        gs = [(and_(self.chain(reg, p, d, conds), g), m) for p, g, m in edges]
        return self.merge_states(gs)

    def merge_abs(self, reg, edges, conds):
        gs = [(and_(self.chain(reg, p, None, conds), g), m) for p, g, m in edges]
        return self.merge_states(gs)

    def merge_states(self, gs):
        gs = [(g, m) for g, m in gs if g is not FALSE and g is not BOT]
        if not gs:
            return FALSE, {}
        if len(gs) == 1:
            return gs[0][0], dict(gs[0][1])
        cond = gs[0][0]
        for g, _ in gs[1:]:
            cond = or_(cond, g)
        keys = {}
        for _, m in gs:
            for k in m:
                keys[k] = 1
        out = {}
        for k in keys:
            vs = []
            for g, m in gs:
                v = m.get(k)
                if v is None:
                    v = self.root_initial(k)
                vs.append((g, v))
            have = [(g, v) for g, v in vs if v is not None and v is not BOT]
            if not have:
                continue
            r = have[-1][1]
            if cond is not TRUE and any(v is not r for g, v in have):
                by = {}
                for g, v in have:
                    by[v] = or_(by[v], g) if v in by else g
                r = choose([(g, v) for v, g in by.items()])
            else:
                for g, v in reversed(have[:-1]):
                    if v is not r:
                        r = ite(g, v, r)
            out[k] = r
        return cond, out

    # ------------------------------------------------------------- loops ---
    def loop(self, fr, reg, mem):
        self.inloop += 1
        try:
            res = self.fix(mem, lambda m: self.loop_body(fr, reg, m))
        finally:
            self.inloop -= 1
        if res is None:
            return []
        tgt = reg.join
        if tgt is None:
            return [("ret", TRUE, res)]
        return [(tgt, TRUE, res)]

    def loop_body(self, fr, reg, m):
        o = self.region(fr, reg, m)
        return o["latch"], o["exit"]

    def fix(self, mem, body):
        """Summarises `loop { body }`; body(mem) -> (latch, exit), each
        (guard, mem) or None."""
        self.stats["loops"] += 1
        r = self.peel(mem, body)
        if r is not False:
            return r
        self.uid += 1
        uid = self.uid
        carried = {}     # (root, path) -> phi
        nphi = 0
        first = True
        for _round in range(40):
            m = dict(mem)
            for (root, path), ph in carried.items():
                m[root] = update(self.mem_get(m, root), path, ph)
            head = dict(m)
            latch, exit_ = body(m)
            if latch is None:
                # never iterates
                if exit_ is None:
                    return None
                if not carried:
                    return exit_[1]
                break
            changed = False
            for root, lv in latch[1].items():
                hv = head.get(root)
                if hv is None:
                    hv = self.root_initial(root)
                    if hv is None:
                        continue
                if hv is lv:
                    continue
                for path in diff_paths(hv, lv):
                    # is it covered by a carried path (then it is the step)?
                    if any(r == root and path[:len(p)] == p for (r, p) in carried):
                        continue
                    # coarsen: drop finer ones
                    for k in [k for k in carried if k[0] == root and k[1][:len(path)] == path]:
                        del carried[k]
                    nphi += 1
                    ph = mk("phi", uid, nphi)
                    h0 = self.load_path(self.mem_get(mem, root), path)
                    l0 = self.load_path(lv, path)
                    ty = guess_ty(h0) if h0.op != "num" else guess_ty(l0)
                    if path and path[-1][0] == "f" and path[-1][1][0] == "iter":
                        ty = "u"
                    if ty is None and path and path[-1][0] == "f" and path[-1][1][0] == "adt" and path[-1][1][1].startswith("core::ops::range::") and h0.op == "num":
                        # only integers are counted through
                        ty = "u" if h0.a[0] >= 0 else "i"
                    if ty is None:
                        ty = self.place_ty(root, path)
                    ph.ty = ty
                    carried[(root, path)] = ph
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop summary did not converge")
        if exit_ is None:
            return None
        gl, ml = latch
        ge, me = exit_
        # neither goes on nor leaves: that iteration panics
        gl = not_(ge)
        keys = list(carried)
        phis = [carried[k] for k in keys]
        init = {}
        step = {}
        for k in keys:
            init[carried[k]] = self.load_path(self.mem_get(mem, k[0]), k[1])
            step[carried[k]] = self.load_path(ml[k[0]], k[1]) if k[0] in ml else carried[k]
        if self.cut is not None and self.cut(init, step, {carried[k]: (self.load_path(me[k[0]], k[1]) if k[0] in me else carried[k]) for k in keys},
                                             gl, ge, {carried[k]: k for k in keys}):
            # the rest is summarised over the state in which the last pass began
            return me
        rec = Recurrence(phis, init, step, gl)
        out = {}
        for root, v in me.items():
            if mem.get(root) is v and not (tm.free_phis(v) & rec.set):
                out[root] = v
            else:
                out[root] = rec.out(v)
        rec.record_lengths()
        return out

    def peel(self, mem, body):
        """Loop whose trip count is a small constant: the composition of its
        iterations.  False when it is not."""
        m = mem
        for _ in range(40):
            latch, exit_ = body(dict(m))
            if latch is None:
                return None if exit_ is None else exit_[1]
            if exit_ is not None:
                return False
            m = latch[1]
        return False

    def place_ty(self, root, path):
        t = self.rootty.get(root)
        return t

    # ------------------------------------------------------------- blocks --
    def block(self, fr, b, mem):
        blk = fr.fn.blocks[b]
        for st in blk["s"]:
            if st[0] == "=":
                v = self.rvalue(fr, mem, st[2])
                self.write(fr, mem, st[1], v)
            elif st[0] == "setd":
                raise Unsupported("set discriminant")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], TRUE, mem)]
        if k == "return":
            return [("ret", TRUE, mem)]
        if k == "drop":
            return [(t[2], TRUE, mem)]
        if k == "assert":
            return [(t[4], TRUE, mem)]
        if k == "switch":
            v, vt = self.operand(fr, mem, t[1])
            outs = []
            rest = TRUE
            live = self.cfg(fr.fn).live
            if vt[0] == "bool":
                v = tobool(v)
                for val, tgt in t[2]:
                    g = v if int(val) else not_(v)
                    if tgt in live:
                        outs.append((tgt, g, dict(mem)))
                    rest = and_(rest, not_(g))
            else:
                for val, tgt in t[2]:
                    if vt[0] == "char":
                        g = tm.eq_generic(v, mk("char", int(val)))
                    else:
                        iv = int(val)
                        if vt[0] == "int":
                            iv = wrap(iv, vt)
                        g = cmp("eq", v, num(iv), True)
                    if tgt in live:
                        outs.append((tgt, and_(rest, g), dict(mem)))
                    rest = and_(rest, not_(g))
                sk = cmp("eq", v, num(SKIPPED), True) if has_skip(v) else FALSE
                if sk is not FALSE and not any(int(x[0]) == SKIPPED for x in t[2]):
                    outs.append(("skip", sk, dict(mem)))
                    rest = and_(rest, not_(sk))
            if rest is not FALSE and t[3] in live:
                outs.append((t[3], rest, dict(mem)))
            return outs
        if k == "call":
            p0, self.pend = self.pend, TRUE
            r = self.call(fr, mem, t)
            g, self.pend = self.pend, p0
            if r is None or t[4] is None:
                return []
            v, mem2 = r
            d, dt = self.place(fr, mem2, t[3])
            self.write(fr, mem2, t[3], self.typed(v, dt))
            return [(t[4], g, mem2)]
        if k == "yield":
            return [(t[2], TRUE, mem)]
        if k in ("unreachable", "resume", "terminate", "codrop"):
            return []
        raise Unsupported("terminator " + k)

    # -------------------------------------------------------------- calls --
    def call(self, fr, mem, t):
        f, ft = self.operand(fr, mem, t[1])
        args = [self.operand(fr, mem, a)[0] for a in t[2]]
        self.stats["calls"] += 1
        dt = None
        if t[4] is not None:
            dt = self.place(fr, mem, t[3])[1]
        at = []
        for a in t[2]:
            if a[0] in ("c", "m"):
                at.append(self.place(fr, mem, a[1])[1])
            else:
                at.append(None)
        return self.apply_fn(fr, mem, f, args, dt, t[5] if len(t) > 5 else None, at)

    def apply_fn(self, fr, mem, f, args, rty=None, span=None, at=None):
        """Calls function value f."""
        if f.op == "case":
            leaves = []
            self._leaves(f, TRUE, leaves)
            outs = []
            p0 = self.pend
            for g, x in leaves:
                r = self.apply_fn(fr, dict(mem), x, args, rty, span, at)
                self.pend = p0
                if r is not None:
                    r[1][("X", "ret")] = r[0]
                    outs.append((g, r[1]))
            if not outs:
                return None
            _, m = self.merge_states(outs)
            return m.pop(("X", "ret")), m
        if f.op == "fn":
            return self.call_ref(fr, mem, f.a[0], args, rty, span, at)
        if f.op == "agg" and f.a[0] == ("constfn",):
            return f.a[1][0], mem
        if f.op == "agg" and f.a[0][0] == "closure":
            return self.call_closure(mem, f, args)
        if f.op == "ref":
            return self.apply_fn(fr, mem, self.load(mem, f), args, rty, span, at)
        # unknown function pointer
        vals = [self.argval(mem, a) for a in args]
        if not any(a.op == "ref" for a in args):
            r = tm.apply("callptr", lambda *x: mk_op("callptr", list(x)), tuple([f] + vals))
            return (self.typed(r, rty) if rty is not None else r), mem
        return self.opaque_call("callptr", mem, [f] + list(args), rty)

    def call_closure(self, mem, clo, args, selfref=None):
        """args: list of the closure's own arguments."""
        fn = self.prog.fns.get(clo.a[0][1])
        if fn is None:
            return self.opaque_call("closure:" + clo.a[0][1], mem, [clo] + list(args), None)
        env = self.closure_env.get(fn.id, {})
        t1 = fn.locals[1] if fn.argc >= 1 else None
        mem = dict(mem)
        if t1 is not None and t1[0] == "ref":
            if selfref is None:
                self.uid += 1
                root = ("X", "clo", self.uid)
                mem[root] = clo
                selfref = mk("ref", root, ())
            a = [selfref] + list(args)
        else:
            a = [clo] + list(args)
        r = self.run(fn, a, mem, env)
        return r

    def call_value(self, mem, f, args):
        """Calls a closure / function value / reference to one."""
        return self.apply_fn(None, mem, f, list(args))

    def call_ref(self, fr, mem, ref, args, rty=None, span=None, at=None):
        o = ref.o
        envd = dict(ref.env)
        prog = self.prog
        if "ctor" in o:
            adt, v = o["ctor"]
            if tm.ISENUM.get(adt):
                return enum_val(adt, v, args), mem
            return mk_agg(("adt", adt), args), mem
        targs = [prog.subst(prog.ty(ref.crate, a), envd) for a in o["args"] if isinstance(a, int)]
        callee = Callee(o, targs, ref.crate)
        if self.events is not None:
            r = self.events(self, fr, callee, args, mem)
            if r is not None:
                return r
        # models come first for library items
        r = o.get("r")
        fn = None
        env = {}
        if r is not None and r["def"] in prog.fns and r["k"] in ("item", "closure_once"):
            fn = prog.fns[r["def"]]
            ra = [prog.subst(prog.ty(ref.crate, a), envd) for a in r["args"] if isinstance(a, int)]
            env = prog.fn_env(fn, ra)
            if fn.j.get("in_trait") and targs:
                # provided method: is there a more specific one now?
                z = prog.resolve(fn.j["in_trait"], fn.name, targs[0])
                if z and z[0] in prog.fns and z[0] != fn.id:
                    fn, env = prog.fns[z[0]], z[1]
        elif o["def"] in prog.fns and "trait" not in o:
            fn = prog.fns[o["def"]]
            env = prog.fn_env(fn, targs)
        elif "trait" in o and targs:
            z = None
            st = targs[0]
            z = prog.resolve(o["trait"], o["item"], st, targs[1:]) if o["trait"] in prog.traits or st[0] == "adt" else None
            if z is None and self.devirt and st[0] == "dyn" and args:
                v = self.load(mem, args[0])
                if v.op == "agg" and v.a[0][0] == "adt":
                    z = prog.resolve(o["trait"], o["item"], ("adt", v.a[0][1], ()))
            if z and z[0] in prog.fns:
                fn, env = prog.fns[z[0]], z[1]
        if fn is not None and not self.is_opaque(fn):
            if fn.j["kind"] == "Closure":
                return self.call_closure_fn(mem, fn, args)
            try:
                return self.run(fn, args, mem, env)
            except Unsupported as e:
                if "recursion" not in str(e):
                    raise
        if fn is None:
            m = self.models.lookup(callee)
            if m is not None:
                self.rty = rty
                p0 = self.pend
                r = m(self, fr, mem, callee, args)
                self.pend = p0
                return r
        name = "call:" + (fn.id if fn is not None else callee.key())
        return self.opaque_call(name, mem, args, rty, None if at is None else
                                {i for i, t in enumerate(at) if t is None or may_mutate(t)})

    def call_closure_fn(self, mem, fn, args):
        # closure bodies called through Fn*::call: args = (closure, tuple)
        clo, tup = args
        n = fn.argc - 1
        a = [proj(tup, ("f", ("tuple", n), 0, i)) for i in range(n)]
        c = self.load(mem, clo) if clo.op == "ref" else clo
        return self.call_closure(mem, c, a, clo if clo.op == "ref" else None)

    def is_opaque(self, fn):
        if fn.id in self.opaque:
            return True
        if self.opaque_pred is not None and self.opaque_pred(fn):
            return True
        rt = fn.locals[0]
        return not self.inline_dyn and has_box_dyn(rt) and not fn.j["kind"] == "Closure"

    def argval(self, mem, a, depth=0):
        """What a callee can see behind an argument."""
        if depth > 4:
            return a
        if a.op == "ref" or (a.op == "case" and any(x.op == "ref" for x in a.a[1])):
            v = self.load(mem, a)
            if v.op == "deref":
                return v.a[0]
            return mk("rv", self.argval(mem, v, depth + 1))
        if a.op == "agg" and a.a[1] and a.a[0][0] != "array":
            fs = tuple(self.argval(mem, x, depth + 1) for x in a.a[1])
            if a.a[0][0] == "closure":
                return mk_agg(("closurev",) + a.a[0][1:], fs)
            return mk_agg(a.a[0], fs)
        if ("P", a) in mem:
            v = mem[("P", a)]
            return a if v.op == "deref" and v.a[0] is a else mk("rv", v)
        return a

    def opaque_call(self, name, mem, args, rty, mutable=None):
        self.stats["opaque_calls"] += 1
        vals = [self.argval(mem, a) for a in args]
        mem = dict(mem)
        for i, a in enumerate(args):
            for r in mut_targets(a):
                if mutable is not None and i not in mutable:
                    continue
                self.store_ref(mem, r, mk_op(name + "!%d" % i, vals))
        r = mk_op(name, vals)
        if rty is not None:
            r = self.typed(r, rty)
        return r, mem


def mk_op(name, vals):
    tm.DIST.add(name)
    # gates in argument position are kept inside (the call happens once)
    if any(v is BOT for v in vals):
        return BOT
    return mk("op", name, tuple(prune(v) for v in vals))


def choose(gs):
    """One of the values, by the guard that holds (they exclude each other); if
    none does, any. Tests whose outcomes can share a choice are left out, so that
    the choice does not depend on the order of the tests."""
    gs = [(g, v) for g, v in gs if g is not FALSE and g is not BOT]
    if not gs:
        return BOT
    if len(gs) == 1:
        return gs[0][1]
    for g, v in gs:
        if g is TRUE:
            return v
    if any(g.op != "case" for g, v in gs):
        r = gs[-1][1]
        for g, v in gs[:-1]:
            r = ite(g, v, r)
        return r
    top = min((g.a[0] for g, v in gs), key=tm.tkey)
    n = tm.arity(top)
    cof = [[tm.restrict(g, top, i) for g, v in gs] for i in range(n)]
    if all(and_(a, b) in (FALSE, BOT) for i in range(n) for j in range(n) if i != j
           for k, a in enumerate(cof[i]) for l, b in enumerate(cof[j]) if k != l):
        out = []
        for k, (g, v) in enumerate(gs):
            u = cof[0][k]
            for i in range(1, n):
                u = or_(u, cof[i][k])
            out.append((u, v))
        return choose(out)
    return tm.join(top, tuple(choose([(c, v) for c, (g, v) in zip(cs, gs)]) for cs in cof))


def prune(t):
    """Drops the cases of an argument that cannot occur (the call is not made).
    A case that only leaves out what its siblings define is the sibling, so that
    the result does not depend on the order in which conditions were tested."""
    if t.op != "case" or not has_bot(t):
        return t
    live = [c for c in dict.fromkeys(t.a[1]) if c is not BOT]
    if not live:
        return BOT
    best = live[0]
    for c in live[1:]:
        best = meld(best, c)
        if best is None:
            break
    if best is not None:
        return prune(best)
    cs = [prune(c) for c in t.a[1]]
    live = {c for c in cs if c is not BOT}
    if len(live) == 1:
        return live.pop()
    return tm._mk_case(t.a[0], tuple(cs))


_has_bot = {}


def has_bot(t):
    r = _has_bot.get(t)
    if r is None:
        r = _has_bot[t] = t is BOT or t.op == "case" and any(has_bot(c) for c in t.a[1])
    return r


_meld = {}


def meld(a, b):
    """The value that is a where a is defined and b where b is, or None."""
    if a is b or b is BOT:
        return a
    if a is BOT:
        return b
    k = (a, b)
    if k in _meld:
        return _meld[k]
    r = None
    if (has_bot(a) or has_bot(b)) and (a.op == "case" or b.op == "case"):
        top = min((c.a[0] for c in (a, b) if c.op == "case"), key=tm.tkey)
        cs = [meld(tm.restrict(a, top, i), tm.restrict(b, top, i)) for i in range(tm.arity(top))]
        if None not in cs:
            r = cs[0] if all(c is cs[0] for c in cs) else tm._mk_case(top, tuple(cs))
    _meld[k] = r
    return r


def mut_targets(a):
    """References an argument passes on (conservatively: all of them are
    considered writable unless the caller of opaque_call says otherwise)."""
    if a.op == "ref":
        return [a]
    if a.op == "agg" and a.a[0][0] in ("closure", "tuple", "adt", "iter"):
        out = []
        for f in a.a[1]:
            out.extend(mut_targets(f))
        return out
    if a.op == "case":
        return [a] if any(c.op == "ref" for c in a.a[1]) else []
    return []


class Frame:
    __slots__ = ("fid", "fn", "env")

    def __init__(self, fid, fn, env):
        self.fid = fid
        self.fn = fn
        self.env = env


_fnrefs = {}


class FnRef:
    """Interned function value (so that terms compare by identity)."""
    def __new__(cls, crate, o, env):
        key = (crate, o["def"], tuple(x if isinstance(x, int) else str(x) for x in o["args"]), env)
        r = _fnrefs.get(key)
        if r is None:
            r = object.__new__(cls)
            r.crate, r.o, r.env = crate, o, env
            _fnrefs[key] = r
        return r

    def __repr__(self):
        return self.o["p"]


class Callee:
    __slots__ = ("o", "targs", "path", "trait", "item", "crate")

    def __init__(self, o, targs, crate):
        self.o = o
        self.targs = targs
        self.crate = crate
        self.path = o["p"]
        self.trait = o.get("trait")
        self.item = o.get("item")

    def key(self):
        return self.path

    def self_ty(self):
        return self.targs[0] if self.targs else None


def refs_frame(t, fid):
    return any(r[0] == "L" and r[1] == fid for r in tm.ref_roots(t))


def may_mutate(t, depth=0):
    """Can something be written through a value of this type?"""
    k = t[0]
    if depth > 6:
        return True
    if k == "ref":
        return bool(t[2])
    if k == "ptr":
        return bool(t[2])
    if k in ("bool", "char", "str", "never", "int", "uint", "float", "fndef"):
        return False
    if k in ("array", "slice"):
        return may_mutate(t[1], depth + 1)
    if k == "tuple":
        return any(may_mutate(x, depth + 1) for x in t[1])
    if k in ("closure", "coroutine"):
        return any(may_mutate(x, depth + 1) for x in t[2])
    if k == "adt":
        if "Mut" in t[1].rsplit("::", 1)[-1]:
            return True
        return any(may_mutate(x, depth + 1) for x in t[2] if x[0] != "const")
    return True


def has_box_dyn(t):
    if t[0] == "adt":
        if t[1].endswith("boxed::Box") and t[2] and t[2][0][0] == "dyn":
            return t[2][0][1] is not None and not t[2][0][1].startswith("core::future")
        return False
    return False


def has_skip(v, k=SKIPPED):
    if v.op == "num":
        return v.a[0] == k
    if v.op == "case":
        return any(has_skip(c, k) for c in v.a[1])
    return False


def FIELDLESS():
    r = tm.MEMO.get("fieldless")
    if r is None:
        r = tm.MEMO["fieldless"] = {k for k, ar in tm.ADT_AR.items() if tm.ISENUM.get(k) and len(ar) > 1 and not any(ar)}
    return r


def guess_ty(t):
    if t.op == "enum" and t.a[0] in FIELDLESS():
        return ("e", t.a[0])
    if t.op == "case":
        for c in t.a[1]:
            r = guess_ty(c)
            if r:
                return r
        return None
    if t.ty:
        return t.ty
    return None


def diff_paths(a, b, path=()):
    if a is b:
        return
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        k = a.a[0]
        if k[0] == "array":
            yield path
            return
        for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            e = ("b",) if k[0] == "box" else ("f", k, 0, i)
            yield from diff_paths(x, y, path + (e,))
        return
    if a.op == "enum" and b.op == "enum" and a.a[0] == b.a[0] and a.a[1] is b.a[1] and a.a[1].op == "num" and len(a.a[2]) > 1:
        # the variant stays: only its contents are carried
        w = int(a.a[1].a[0])
        for i, (x, y) in enumerate(zip(a.a[2][w], b.a[2][w])):
            yield from diff_paths(x, y, path + (("f", ("adt", a.a[0]), w, i),))
        return
    if a.op == "agg" and a.a[0][0] in ("adt", "tuple") and b is not BOT and b.op not in ("enum",):
        k = a.a[0]
        for i, x in enumerate(a.a[1]):
            y = proj(b, ("f", k, 0, i))
            yield from diff_paths(x, y, path + (("f", k, 0, i),))
        return
    if b.op == "agg" and b.a[0][0] in ("adt", "tuple") and a is not BOT and a.op not in ("enum",):
        k = b.a[0]
        for i, y in enumerate(b.a[1]):
            x = proj(a, ("f", k, 0, i))
            yield from diff_paths(x, y, path + (("f", k, 0, i),))
        return
    yield path


SEQ_OPS = ("repeat", "push", "store", "subseq", "vec_empty", "sorted", "swap_elems")


class Recurrence:
    """Carried places of one loop, normalised up to renaming."""

    def __init__(self, phis, init, step, guard):
        # places that never change hold their initial value
        self.const = {}
        while True:
            c = {p: init[p] for p in phis if step[p] is p}
            if not c:
                break
            memo = {}
            phis = [p for p in phis if p not in c]
            step = {p: tm.subst(step[p], c, memo) for p in phis}
            guard = tm.subst(guard, c, memo)
            self.const = {k: tm.subst(v, c, memo) for k, v in self.const.items()}
            self.const.update(c)
        self.parts = {}
        self.phis = phis
        self.set = frozenset(phis)
        self.guard = guard
        self.init = init
        # sequences whose length no iteration changes
        ln = {}
        for p in phis:
            if init[p] is BOT or p.ty in ("u", "i", "f"):
                continue
            l0 = mk("op", "len", (p,))
            l0.ty = "u"
            l = tm.length(step[p]) if step[p].op in ("op", "case") else None
            if l is l0 and init[p].op == "op" and (init[p].a[0] in SEQ_OPS or "!" in init[p].a[0]):
                ln[p] = p
                ln[l0] = tm.length(init[p])
        if ln:
            memo = {}
            step = {p: tm.subst(x, ln, memo) for p, x in step.items()}
            guard = tm.subst(guard, ln, memo)
        self.lens = ln
        phis, step, guard = self.count_lengths(phis, step, guard)
        init, self.guard = self.init, guard
        # affine normalisation: x' = x + e with e free of x starts at zero
        sh = {}
        self.shift = {}
        self.stride = {}
        for p in phis:
            st, ini = step[p], init[p]
            if ini is BOT or st is BOT or tm.is_agg(st) or tm.is_agg(ini):
                continue
            d = None
            if ini is TRUE:
                # a flag: starts out false
                sh[p] = not_(p)
                self.shift[p] = None
                continue
            if ini is FALSE:
                sh[p] = tm.tobool(p)
                self.shift[p] = False
                continue
            if numeric(st) and numeric(ini):
                d = sub(st, p)
                if p in tm.free_phis(d):
                    d = None
            if d is not None and p.ty in ("u", "i") and d.op == "num" and d.a[0] != 1 and d.a[0].denominator == 1 and d.a[0] != 0:
                # steps of k: k times a counter
                sh[p] = add(ini, tm.scale(p, d.a[0]))
                self.shift[p] = ini
                self.stride[p] = d.a[0]
            elif d is not None and ini is not tm.ZERO:
                sh[p] = add(ini, p)
                self.shift[p] = ini
        if sh:
            memo = {}
            step = {p: tm.subst(step[p], sh, memo) for p in phis}
            for p in sh:
                step[p] = not_(step[p]) if self.shift[p] is None else tm.tobool(step[p]) if self.shift[p] is False else \
                    tm.scale(sub(step[p], self.shift[p]), 1 / Fraction(self.stride.get(p, 1)))
            self.guard = tm.subst(guard, sh, memo)
            self.init = {p: ((FALSE if self.shift[p] in (None, False) else tm.ZERO) if p in sh else init[p]) for p in phis}
        self.sh = sh
        self.closed = {}
        # the body only runs while the condition of the loop holds
        lits = tm.literals(self.guard)
        memo = {}
        step = {p: tm.assume(x, lits, memo) for p, x in step.items()}
        step = self.close_counters(phis, step)
        phis = self.phis = [p for p in phis if p not in self.closed]
        self.set = frozenset(phis)
        self.step = {p: ite(self.guard, step[p], BOT) for p in phis}
        memo = {}
        self.cstep = {p: x if x is BOT else tm.canon(x, self.guard, memo, tm.DEAD) for p, x in step.items() if p in self.set}
        self._deps = {p: (tm.free_phis(self.cstep[p]) & self.set) for p in phis}
        self._slices = {}
        self.shmemo = {}

    def count_lengths(self, phis, step, guard):
        """A sequence that grows or shrinks by one element each time, and whose
        length the loop looks at: the length counts the iterations."""
        self.grown = []
        counted = any(p.ty == "u" and numeric(step[p]) and sub(step[p], p) is tm.ONE for p in phis)
        for p in list(phis):
            st = step[p]
            if self.init[p] is BOT or p.ty in ("u", "i", "f") or st.op != "op" or st.a[0] not in ("push", "subseq"):
                continue
            l0 = mk("op", "len", (p,))
            l0.ty = "u"
            d = sub(tm.length(st), l0)
            n = tm.length(self.init[p])
            if d.op != "num" or abs(d.a[0]) != 1 or n is BOT:
                continue
            q = mk("phi", p.a[0], max(x.a[1] for x in phis) + 1)
            q.ty = "u"
            memo = {}
            ln = {p: p, l0: add(n, tm.scale(q, d.a[0]))}
            g = tm.subst(guard, ln, memo)
            ns = {x: tm.subst(y, ln, memo) for x, y in step.items() if x is not p}
            if g is guard and all(step[x] is y for x, y in ns.items()) and not counted:
                continue
            # what is appended may look at it as well
            if st.a[0] == "push":
                st = mk("op", "push", (tm.subst(st.a[1][0], ln, memo), tm.subst(st.a[1][1], ln, memo)))
            ns[p] = st
            ns[q] = add(q, tm.ONE)
            guard, step = g, ns
            phis = phis + [q]
            self.init = dict(self.init)
            self.init[q] = tm.ZERO
            self.lens = dict(self.lens)
            self.lens.update(ln)
            self.grown.append((p, l0))
        self.phis = phis
        self.set = frozenset(phis)
        return phis, step, guard

    def record_lengths(self):
        """How long the sequences are that grew by one element each time."""
        if self.last is None:
            return
        known = tm.MEMO.setdefault("lengths", {})
        for p, l0 in self.grown:
            if p not in self.set:
                continue
            n = self.out(l0)
            v = self.out(p)
            if n is BOT or (n.op == "case" and v.op == "case"):
                continue
            for m in leaves(v):
                if m.op == "mu" and known.setdefault(m, n) is not n:
                    known[m] = None

    def close_counters(self, phis, step):
        """Counters that only depend on how often the loop has run, as functions
        of the iteration number."""
        self.index = self.last = None
        cand = [p for p in phis if self.init[p] is tm.ZERO and p.ty != "f" and numeric(step[p]) and sub(step[p], p) is tm.ONE]
        if not cand:
            return step
        i = self.index = min(cand, key=lambda p: p.a)
        self.closed = {p: i for p in cand if p is not i}
        todo = [p for p in phis if p not in cand and self.init[p].op not in ("bool", "agg", "enum") and self.init[p] is not BOT]
        while True:
            if self.closed:
                memo = {}
                step = {p: tm.subst(x, self.closed, memo) for p, x in step.items()}
                self.guard = tm.subst(self.guard, self.closed, memo)
            new = {}
            for p in todo:
                c = self.counter(i, p, self.init[p], step[p]) if p.ty != "f" else None
                if c is None and p.ty != "f":
                    c = self.sequence(i, p, self.init[p], step[p])
                if c is None:
                    c = self.lagged(i, self.init[p], step[p])
                if c is not None:
                    new[p] = c
            if not new:
                break
            todo = [p for p in todo if p not in new]
            self.closed.update(new)
        # the first iteration
        first = tm.cmp("ge", i, tm.ONE, True)
        ft = first.a[0]
        for p in phis:
            if p not in self.closed and ft in tm.case_tests(step[p]):
                lo = tm.subst(tm.cofactor(step[p], ft, 0, {}), {i: tm.ZERO})
                step[p] = ite(first, tm.cofactor(step[p], ft, 1, {}), lo)
        if self.guard.op == "case":
            # left at i = k: never beyond
            own = frozenset(phis)
            for t in sorted(tm.case_tests(self.guard), key=tm.tkey):
                q = index_test(t, i)
                if q is None or tm.free_phis(q[0]) & own or tm.cmp("ge", q[0], tm.ZERO, True) is not TRUE:
                    continue
                below = tm.cmp("lt", i, q[0], True)
                if and_(self.guard, tm.cmp("eq", i, q[0], True)) is FALSE and and_(self.guard, below) is not self.guard:
                    self.guard = and_(self.guard, below)
        if self.guard is not TRUE and self.guard is not FALSE:
            self.last = self.bound(self.guard, i, frozenset(phis))
        return step

    def bound(self, g, i, own):
        """Number of iterations after which the condition is false for good."""
        if g is FALSE:
            return tm.ZERO
        if g.op != "case":
            return None
        t, ch = g.a
        k = index_test(t, i)
        if k is None:
            if tm.free_phis(t) & own:
                return None
            bs = [self.bound(c, i, own) for c in ch]
            return None if None in bs else join(t, bs)
        k, o = k
        if tm.free_phis(k) & own or ch[o] is not FALSE:
            return None
        if tm.cmp("ge", k, tm.ZERO, True) is not tm.TRUE:
            k = tm.max_(k, tm.ZERO, True)
        if ch[1 - o] is TRUE:
            return k
        b = self.bound(ch[1 - o], i, own)
        return None if b is None else tm.min_(k, b, True)

    def part(self, v, i):
        """The sequence whose elements, from the first on, v is for i = 0, 1, .."""
        if v.op == "case":
            if tm.free_phis(v.a[0]) & self.set:
                return None
            ch = [self.part(c, i) for c in v.a[1]]
            return None if None in ch else join(v.a[0], ch)
        if v.op != "proj" or v.a[1][0] != "ix" or tm.free_phis(v.a[0]) & self.set:
            return None
        c = sub(v.a[1][1], i)
        if tm.free_phis(c) & self.set:
            return None
        return tm.subseq(v.a[0], c, add(c, i))

    def lagged(self, i, a, st):
        """What the iteration before computed, where the initial value is what
        that would be for the first one."""
        if st is BOT or i not in tm.free_phis(st) or tm.free_phis(st) & (self.set - {i}):
            return None
        f = tm.subst(st, {i: sub(i, tm.ONE)})
        return f if tm.subst(f, {i: tm.ZERO}) is a else None

    def sequence(self, i, p, a, st):
        """Copies of a part of another sequence; elements taken off the end."""
        if st.op == "op" and st.a[0] == "push":
            b, v = st.a[1]
            if b is not p:
                return None
            r = self.part(v, i)
            if r is None and v is not BOT and not tm.free_phis(v) & (self.set - {i}):
                x = tm.sym("%new", "u")
                r = tm.tab(i, x, tm.subst(v, {i: x}))
            return None if r is None else tm.cat(a, r)
        if st.op == "op" and st.a[0] == "cat" and st.a[1][0] is p:
            # the same number of elements each time
            b = st.a[1][1]
            n = tm.length(b)
            if n is BOT or tm.free_phis(n) & self.set or tm.free_phis(b) & (self.set - {i}):
                return None
            x = tm.sym("%new", "u")
            v = tm.select(tm.subst(b, {i: idiv(x, n)}), irem(x, n))
            return tm.cat(a, tm.tab(tm.mul(i, n), x, v))
        l = mk("op", "len", (p,))
        l.ty = "u"
        short = tm.subseq(p, tm.ZERO, sub(l, tm.ONE))
        if st is short or st is ite(tm.cmp("ge", l, tm.ONE, True), short, p):
            n = tm.length(a)
            return ite(tm.cmp("ge", sub(n, i), tm.ZERO, True), tm.subseq(a, tm.ZERO, sub(n, i)), tm.subseq(a, tm.ZERO, tm.ZERO))
        return None

    def counter(self, i, p, a, st):
        inv = lambda x: not (tm.free_phis(x) & self.set)
        if st.op == "op" and st.a[0] == "irem" and a is tm.ZERO and st.a[1][0] is add(p, tm.ONE) and inv(st.a[1][1]):
            return irem(i, st.a[1][1])
        if a is tm.ZERO and p.ty == "u" and st.op == "case":
            # starting over when the end is reached
            up = add(p, tm.ONE)
            for t in sorted(tm.case_tests(st), key=tm.tkey):
                q = index_test(t, p)
                if q is None or not inv(q[0]):
                    continue
                for n in (q[0], add(q[0], tm.ONE)):
                    if st is ite(tm.cmp("eq", up, n, True), tm.ZERO, up) or st is ite(tm.cmp("ge", up, n, True), tm.ZERO, up):
                        return irem(i, n)
        if not numeric(st) or tm.cmp("ge", a, tm.ZERO, True) is not tm.TRUE:
            return None
        k = tm.ZERO
        # not counting before iteration k
        for _ in range(3):
            if st.op != "case":
                break
            hit = False
            for t in sorted(tm.case_tests(st), key=tm.tkey):
                if p in tm.free_phis(t):
                    continue
                q = index_test(t, i)
                if q is None or not inv(q[0]):
                    continue
                if tm.cofactor(st, t, 1 - q[1], {}) is p:
                    k = tm.max_(k, q[0], True)
                    st = tm.cofactor(st, t, q[1], {})
                    hit = True
                    break
            if not hit:
                break
        n = i if k is tm.ZERO else tm.max_(sub(i, k), tm.ZERO, True)
        up = add(p, tm.ONE)
        if st is up:
            return None if k is tm.ZERO else add(a, n)
        if st.op != "case":
            return None
        for m in leaves(st):
            if m is up or not inv(m) or not numeric(m):
                continue
            if tm.min_(up, m, True) is st:
                r = tm.min_(add(a, n), m, True)
                if tm.cmp("ge", m, a, True) is not tm.TRUE and not (a is tm.ZERO and p.ty == "u"):
                    r = ite(tm.cmp("ge", n, tm.ONE, True), r, a)
                return r
        return None

    def colours(self, v):
        """phi -> canonical term, for the phis v depends on.  What the term
        looks like depends on that slice of the recurrence only, with places
        that always hold the same value identified."""
        sl = self.slice(v)
        if sl in self._slices:
            return self._slices[sl]
        phis = [p for p in self.phis if p in sl]

        def start():
            c = {}
            for p in phis:
                c[p] = mk("mu0", self.init[p], p.ty if p.ty in ("u", "i") else "")
                c[p].ty = p.ty
            return c

        def refine(col):
            memo = {}
            new = {}
            for p in phis:
                c = mk("mu1", self.init[p], tm.subst(self.cstep[p], col, memo))
                c.ty = p.ty
                new[p] = c
            return new
        col = start()
        n = len({id(c) for c in col.values()})
        k = 0
        while k < 12:
            new = refine(col)
            k += 1
            m = len({id(c) for c in new.values()})
            col = new
            if m == n:
                break
            n = m
        # k rounds separated n classes; the number of rounds of the result is
        # a function of n, so that duplicates do not change it
        want = min(2 * n, 12)
        while k < want:
            col = refine(col)
            k += 1
        if k > want:
            col = start()
            for _ in range(want):
                col = refine(col)
        self._slices[sl] = (col, {})
        return self._slices[sl]

    def out(self, v):
        """Value after the loop of v, which is stated over the last state."""
        if v.op == "agg" and v.a[0][0] != "array":
            return mk_agg(v.a[0], tuple(self.out(f) for f in v.a[1]))
        if v.op == "enum":
            return tm.mk_enum(v.a[0], self.out(v.a[1]), tuple(None if p is None else tuple(self.out(f) for f in p) for p in v.a[2]))
        if self.const and tm.free_phis(v) & self.const.keys():
            v = tm.subst(v, self.const)
            if v.op in ("agg", "enum"):
                return self.out(v)
        if v is BOT or not (tm.free_phis(v) & (self.set | self.closed.keys())):
            return v
        if self.lens:
            v = tm.subst(v, self.lens)
        if self.sh:
            v = tm.subst(v, self.sh, self.shmemo)
        if self.closed:
            v = tm.subst(v, self.closed)
        if self.last is not None:
            v = tm.subst(v, {self.index: self.last})
        if self.sh or self.closed or self.lens or self.last is not None:
            if v.op in ("agg", "enum"):
                # already shifted: go on with its parts
                return tm.map_parts(v, self.out_s)
        return self.out_s(v)

    def out_s(self, v):
        if v.ty is not None and v.ty[0] == "e" and v.op != "case":
            tag, parts = tm.expand_enum(v, v.ty[1])
            v = mk("enum", v.ty[1], tag, tuple(tuple(x) if x is not None else () for x in parts))
        if v.op in ("agg", "enum") and not (v.op == "agg" and v.a[0][0] == "array"):
            return tm.map_parts(v, self.out_s)
        t = self.split_test(v)
        if t is not None:
            ch = []
            for i in range(tm.arity(t)):
                r = self.parts.get((t, i))
                if r is None:
                    memo = {}
                    r = Recurrence(self.phis, {p: tm.cofactor(x, t, i, memo) for p, x in self.init.items()},
                                   {p: tm.cofactor(x, t, i, memo) for p, x in self.step.items()},
                                   tm.cofactor(self.guard, t, i, memo))
                    self.parts[(t, i)] = r
                ch.append(r.out(tm.cofactor(v, t, i, {})))
            return tm.join(t, ch)
        return self.out_c(v)

    def slice(self, v):
        need = frozenset(tm.free_phis(v) & self.set) | (tm.free_phis(self.guard) & self.set)
        todo, sl = list(need), set()
        while todo:
            p = todo.pop()
            if p not in sl:
                sl.add(p)
                todo.extend(self._deps[p])
        return frozenset(sl)

    def split_test(self, v):
        """A test the loop does not change, on which what v depends on branches."""
        ts = set()
        for p in self.slice(v):
            for t in tm.case_tests(self.step[p]):
                if not (tm.free_phis(t) & self.set):
                    ts.add(t)
                    if len(ts) > 6:
                        return None
        if not ts:
            return None
        return min(ts, key=tm.tkey)

    def out_c(self, v):
        if not (tm.free_phis(v) & self.set):
            return v
        # additive invariant part of a plain accumulator
        const = None
        if v.op == "poly":
            inv, var = {}, {}
            for m, c in v.a[0]:
                if any(tm.free_phis(x) & self.set for x, e in m):
                    var[m] = c
                else:
                    inv[m] = c
            if inv:
                const = tm._mk_poly(inv)
                v = tm._mk_poly(var)
        body = ite(self.guard, tm.CONT, v)
        col, memo = self.colours(body)
        body = tm.subst(body, col, memo)
        r = mk("mu", body)
        r.ty = v.ty
        if const is not None:
            r = add(const, r)
        return r


def index_test(t, i):
    """(k, outcome): test t has that outcome exactly when i >= k."""
    if t.op != "t_thr" or t.a[2]:
        return None
    q, c, _ = t.a
    rest = None
    sg = 0
    d = dict(tm._poly(q))
    for m in list(d):
        if any(x is i for x, e in m):
            if len(m) != 1 or m[0][1] != 1 or d[m].denominator != 1:
                return None
            sg = d.pop(m)
    if not sg:
        return None
    r = tm._mk_poly(d)
    if i in tm.free_phis(r):
        return None
    k = abs(sg)
    if k == 1:
        return (sub(num(c), r), 1) if sg > 0 else (add(sub(r, num(c)), tm.ONE), 0)
    x = add(sub(num(c), r), num(k - 1)) if sg > 0 else add(sub(r, num(c)), num(k))
    if tm.cmp("ge", x, tm.ZERO, True) is not tm.TRUE:
        return None
    return idiv(x, num(k)), 1 if sg > 0 else 0


def leaves(t, out=None):
    out = [] if out is None else out
    if t.op == "case":
        for c in t.a[1]:
            leaves(c, out)
    elif t not in out:
        out.append(t)
    return out


def numeric(t):
    if t.op in ("num", "poly"):
        return True
    if t.op == "case":
        return all(numeric(c) for c in t.a[1] if c is not BOT)
    return t.op in ("phi", "proj", "op", "sym", "deref", "mu", "mu1") and t.ty in ("u", "i", "f")


def float_const(bits, size):
    if size == 32:
        f = struct.unpack("<f", struct.pack("<I", bits))[0]
    else:
        f = struct.unpack("<d", struct.pack("<Q", bits))[0]
    if f != f:
        return mk("sp", "nan")
    if f in (float("inf"), float("-inf")):
        return mk("sp", "inf" if f > 0 else "-inf")
    # decimal literal rather than its binary rounding, so that 0.1 + 0.2 = 0.3
    return num(Fraction(repr(f)))


def wrap(v, t):
    b = INT_BITS[t[1]]
    v &= (1 << b) - 1
    if t[0] == "int" and v >> (b - 1):
        v -= 1 << b
    return v


def idiv(a, b):
    def leaf(a, b):
        if a is BOT or b is BOT:
            return BOT
        if a.op == "num" and b.op == "num" and b.a[0]:
            q = a.a[0] / b.a[0]
            return num(int(q))
        if b is tm.ONE:
            return a
        for mo, c in tm._poly(a).items():
            # y - irem(y, b) + k*b is a multiple of b
            if c == -1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == "op" and mo[0][0].a[0] == "irem" and mo[0][0].a[1][1] is b:
                y = mo[0][0].a[1][0]
                d = sub(add(a, mo[0][0]), y)
                if d is tm.ZERO:
                    return idiv(y, b)
                if d is b:
                    return add(idiv(y, b), tm.ONE)
        if b.op != "num":
            x = add(sub(a, b), tm.ONE)
            if len(tm._poly(x)) < len(tm._poly(a)):
                # (x + b - 1) / b: rounded up
                return add(idiv(x, b), ite(cmp("ge", irem(x, b), tm.ONE, True), tm.ONE, tm.ZERO))
        r = mk("op", "idiv", (a, b))
        r.ty = "u"
        return r
    return tm.apply("idiv", leaf, (a, b))


def irem(a, b):
    def leaf(a, b):
        if a is BOT or b is BOT:
            return BOT
        if a.op == "num" and b.op == "num" and b.a[0]:
            x, y = int(a.a[0]), int(b.a[0])
            r = abs(x) % abs(y)
            return num(-r if x < 0 else r)
        if b is tm.ONE:
            return tm.ZERO
        if b.op not in ("case", "poly") and tm.multiple(tm._poly(a), b):
            return tm.ZERO
        r = mk("op", "irem", (a, b))
        r.ty = "u"
        return r
    return tm.apply("irem", leaf, (a, b))


def is_int_term(t):
    return t.ty in ("u", "i") or (t.op == "op" and t.a[0] in ("floor", "ceil", "round"))


def f2i(a, name):
    def leaf(a):
        if a is BOT:
            return BOT
        if a.op == "num":
            return num(int(a.a[0]))
        d = tm._poly(a) if a.op in ("poly",) else {((a, 1),): Fraction(1)}
        if all(c.denominator == 1 and all(is_int_term(x) and e > 0 for x, e in m) for m, c in d.items()):
            return a
        r = mk("op", "f2i:" + name, (a,))
        r.ty = "u" if name[0] == "u" else "i"
        return r
    return tm.apply("f2i:" + name, leaf, (a,))
