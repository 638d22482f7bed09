"""Summaries of library functions, by path.

An iterator is a position in a source; a source gives its length and its i-th
item.  Consumers are summarised by the same loop recurrences as source loops,
so that `for`, `while` and iterator chains get the same summary.
"""
from fractions import Fraction
from . import terms as tm
from .terms import (mk, num, TRUE, FALSE, BOT, UNIT, ite, and_, or_, not_, proj, update, mk_agg, enum_val,
                    tag_of, cmp, add, sub, mul, tobool, opq, sym, ZERO, ONE)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
POLL = "core::task::poll::Poll"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"
SKIP = 2

TABLE = {}
PRED = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def norm(path):
    # alloc:: / core:: / std:: are one library
    for p in ("core::", "alloc::", "std::"):
        if path.startswith(p):
            return path[len(p):]
    return path


_strip_memo = {}


def strip(path):
    """Path without generic arguments."""
    r = _strip_memo.get(path)
    if r is not None:
        return r
    out, d = [], 0
    i = 0
    s = path
    while i < len(s):
        c = s[i]
        if s.startswith("<impl ", i):
            j = i
            dd = 0
            while True:
                if s[j] == "<":
                    dd += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    dd -= 1
                    if dd == 0:
                        break
                j += 1
            if d == 0:
                out.append(s[i:j + 1])
            i = j + 1
            continue
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out).replace("::::", "::")
    if r.endswith("::"):
        r = r[:-2]
    r = norm(r)
    _strip_memo[path] = r
    return r


def lookup(callee):
    if callee.trait:
        k = "%s::%s" % (callee.trait.rsplit("::", 1)[-1], callee.item)
        m = TABLE.get(k)
        if m is not None:
            return m
    p = strip(callee.path)
    m = TABLE.get(p)
    if m is not None:
        return m
    for pred, f in PRED:
        if pred(p, callee):
            return f
    return None


# ---------------------------------------------------------------- helpers --
def some(v):
    return enum_val(OPTION, 1, (v,))


def none():
    return enum_val(OPTION, 0, ())


def opt(has, v):
    return tm.mk_enum(OPTION, ite(has, num(1), num(0)), ((), (v,)))


def ok(v):
    return enum_val(RESULT, 0, (v,))


def err(v):
    return enum_val(RESULT, 1, (v,))


def is_v(x, adt, v):
    return cmp("eq", tm.tag_cases(tag_of(x, adt), len(tm.ADT_AR[adt])), num(v), True)


def payload(x, adt, v, i=0):
    return proj(x, ("f", ("adt", adt), v, i))


def guarded(ev, mem, g, f):
    """Runs f(mem) -> (ret, mem) where g holds; elsewhere memory is unchanged
    and the result is arbitrary.  None when f diverges."""
    if g is FALSE:
        return BOT, mem
    r = f(dict(mem))
    if r is None:
        return BOT, mem
    ret, m2 = r
    if g is TRUE:
        return ret, m2
    out = dict(mem)
    for k, v in m2.items():
        o = mem.get(k)
        if o is v:
            continue
        if o is None:
            o = ev.root_initial(k)
        out[k] = v if o is None else ite(g, v, o)
    return ret, out


def deep(ev, mem, v, n=0):
    if v.op == "op" and v.a[0] == "&":
        return v.a[1][0]
    """Value behind references (for comparisons)."""
    if n > 6:
        return v
    if v.op == "ref" or (v.op == "case" and any(c.op == "ref" for c in v.a[1])):
        return deep(ev, mem, ev.load(mem, v), n + 1)
    return v


def scalar(prog, v, t):
    """Unwraps newtypes around one scalar."""
    for _ in range(6):
        if t is None:
            break
        if t[0] == "ref":
            break
        if t[0] == "adt" and t[1] in prog.adts and prog.adts[t[1]]["kind"] == "struct" and len(prog.adts[t[1]]["v"][0]["f"]) == 1:
            f = prog.adts[t[1]]["v"][0]["f"][0]
            v = proj(v, ("f", ("adt", t[1]), 0, 0))
            t = prog.ty(prog.adts[t[1]]["crate"], f["t"])
            continue
        break
    return v, t


def strip_ref(t):
    while t is not None and t[0] == "ref":
        t = t[1]
    return t


def vals2(ev, mem, callee, args):
    t = callee.self_ty()
    a, b = args[0], args[1]
    if callee.item in ("eq", "ne", "lt", "le", "gt", "ge", "partial_cmp", "cmp"):
        a, b = ev.load(mem, a), ev.load(mem, b)
    while t is not None and t[0] == "ref":
        a, b = ev.load(mem, a), ev.load(mem, b)
        t = t[1]
    a, t1 = scalar(ev.prog, a, t)
    b, _ = scalar(ev.prog, b, t)
    a, b = (ev.typed(x, t1) if t1 else x for x in (a, b))
    return a, b, t1


def numeric_ty(t):
    return t is not None and t[0] in ("uint", "int", "float")


# --------------------------------------------------------- comparison ------
@model("PartialEq::eq", "PartialEq::ne")
def m_eq(ev, fr, mem, callee, args):
    a, b, t = vals2(ev, mem, callee, args)
    if numeric_ty(t):
        r = cmp("eq", a, b, t[0] != "float")
    elif t == ("bool",):
        a, b = tobool(a), tobool(b)
        r = ite(a, b, not_(b))
    else:
        r = eq_typed(ev, deep(ev, mem, a), deep(ev, mem, b), t)
    return (not_(r) if callee.item == "ne" else r), mem


def eq_typed(ev, a, b, t, depth=0):
    """Structural equality; enums are told apart by their variants."""
    if a is b:
        return TRUE
    if t is not None and numeric_ty(t):
        a, b = ev.typed(a, t), ev.typed(b, t)
        return cmp("eq", a, b, t[0] != "float")
    if t == ("bool",):
        a, b = tobool(a), tobool(b)
        return ite(a, b, not_(b))
    if t is not None and t[0] == "adt" and tm.ISENUM.get(t[1]) and t[1] in ev.prog.adts and depth < 4 and a is not BOT and b is not BOT:
        ad = ev.prog.adts[t[1]]
        if all(len(v["f"]) <= 4 for v in ad["v"]):
            (ta, pa), (tb, pb) = tm.expand_enum(a, t[1]), tm.expand_enum(b, t[1])
            r = cmp("eq", ta, tb, True)
            env = dict(zip(ad.get("gen") or (), t[2] if len(t) > 2 else ()))
            for i, v in enumerate(ad["v"]):
                if not v["f"] or pa[i] is None or pb[i] is None:
                    continue
                e = TRUE
                for f, x, y in zip(v["f"], pa[i], pb[i]):
                    e = and_(e, eq_typed(ev, x, y, ev.prog.subst(ev.prog.ty(ad["crate"], f["t"]), env), depth + 1))
                r = and_(r, ite(cmp("eq", ta, num(i), True), e, TRUE))
            return r
    return tm.eq_generic(a, b)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(ev, fr, mem, callee, args):
    t = callee.self_ty()
    if t is not None and t[0] == "adt" and ("tracing" in t[1] or "LevelFilter" in t[1] or "log::" in t[1]):
        return FALSE, mem
    a, b, t = vals2(ev, mem, callee, args)
    if numeric_ty(t):
        return cmp(callee.item, a, b, t[0] != "float"), mem
    r = lex(ev, a, b, t, callee.item)
    if r is not None:
        return r, mem
    return tobool(mk("op", "ord:" + callee.item, (a, b))), mem


def lex(ev, a, b, t, op):
    return None


def ordering(a, b, integer):
    lt = cmp("lt", a, b, integer)
    eq = cmp("eq", a, b, integer)
    return tm.mk_enum(ORDERING, ite(lt, num(0), ite(eq, num(1), num(2))), ((), (), ()))


@model("PartialOrd::partial_cmp", "Ord::cmp", "<impl f64>::total_cmp")
def m_cmp(ev, fr, mem, callee, args):
    if callee.item is None:
        a, b = ev.load(mem, args[0]), ev.load(mem, args[1])
        return ordering(a, b, False), mem
    a, b, t = vals2(ev, mem, callee, args)
    if numeric_ty(t):
        o = ordering(a, b, t[0] != "float")
    else:
        o = mk("op", "cmp", (deep(ev, mem, a), deep(ev, mem, b)))
    return (some(o) if callee.item == "partial_cmp" else o), mem


@model("cmp::Ordering::reverse")
def m_rev_ord(ev, fr, mem, callee, args):
    tag = tag_of(args[0], ORDERING)
    return tm.mk_enum(ORDERING, sub(num(2), tag), ((), (), ())), mem


@model("cmp::max", "Ord::max", "cmp::min", "Ord::min", "f64::<impl f64>::max", "f64::<impl f64>::min")
def m_maxmin(ev, fr, mem, callee, args):
    a, b = args
    t = callee.self_ty()
    integer = True
    if callee.path.startswith("core::f64") or "f64" in callee.path:
        integer = False
    elif numeric_ty(t):
        integer = t[0] != "float"
    elif t is not None and t[0] == "adt":
        x, t1 = scalar(ev.prog, a, t)
        y, _ = scalar(ev.prog, b, t)
        if numeric_ty(t1):
            c = cmp("ge", x, y, t1[0] != "float")
            ge = c
            return (ite(ge, a, b) if name_of(callee) == "max" else ite(ge, b, a)), mem
        return mk("op", name_of(callee), (a, b)), mem
    f = tm.max_ if name_of(callee) == "max" else tm.min_
    return f(a, b, integer), mem


def name_of(callee):
    return callee.item or callee.o.get("name") or callee.path.rsplit("::", 1)[-1]


@model("Ord::clamp", "f64::<impl f64>::clamp")
def m_clamp(ev, fr, mem, callee, args):
    t = callee.self_ty()
    integer = not ("f64" in callee.path) and (t is None or t[0] != "float")
    return tm.min_(tm.max_(args[0], args[1], integer), args[2], integer), mem


# --------------------------------------------------------- numbers ---------
def int_op(name, nargs=1):
    def f(ev, fr, mem, callee, args):
        a = args[0]

        def leaf(x):
            if x is BOT:
                return BOT
            if x.op == "num":
                v = x.a[0]
                if name == "floor":
                    return num(v.numerator // v.denominator)
                if name == "ceil":
                    return num(-((-v.numerator) // v.denominator))
                if name == "round":
                    s = 1 if v >= 0 else -1
                    v = abs(v)
                    return num(s * ((2 * v.numerator + v.denominator) // (2 * v.denominator)))
                if name == "trunc":
                    return num(int(v))
            if name != "trunc" and all(c.denominator == 1 and all(y.ty in ("u", "i") and e > 0 for y, e in m) for m, c in tm._poly(x).items()):
                pass
            r = mk("op", name, (x,))
            r.ty = "f"
            return r
        return tm.apply(name, leaf, (a,)), mem
    return f


for _n in ("floor", "ceil", "round", "trunc"):
    TABLE["f64::<impl f64>::" + _n] = int_op(_n)
    TABLE["<impl f64>::" + _n] = TABLE["f64::<impl f64>::" + _n]
for _n in ("sqrt", "ln", "exp", "log10", "log2", "powf", "cbrt", "sin", "cos", "tan", "tanh", "fract", "hypot", "atan2", "exp_m1", "ln_1p", "log", "copysign", "rem_euclid", "div_euclid", "to_degrees", "to_radians"):
    def _mk(n):
        def f(ev, fr, mem, callee, args):
            if n == "powf" and args[1].op == "num" and args[1].a[0] in (1, 2, 3):
                r = args[0]
                for _ in range(int(args[1].a[0]) - 1):
                    r = mul(r, args[0])
                return r, mem
            r = opq(n, *args)
            if r.op == "op":
                r.ty = "f"
            return r, mem
        return f
    TABLE["f64::<impl f64>::" + _n] = _mk(_n)


@model("f64::<impl f64>::powi")
def m_powi(ev, fr, mem, callee, args):
    if args[1].op == "num" and 0 <= args[1].a[0] <= 6:
        r = ONE
        for _ in range(int(args[1].a[0])):
            r = mul(r, args[0])
        return r, mem
    r = opq("powi", *args)
    if r.op == "op":
        r.ty = "f"
    return r, mem


@model("f64::<impl f64>::mul_add")
def m_muladd(ev, fr, mem, callee, args):
    return add(mul(args[0], args[1]), args[2]), mem


@model("f64::<impl f64>::recip")
def m_recip(ev, fr, mem, callee, args):
    return tm.div(ONE, args[0]), mem


@model("f64::<impl f64>::abs", "num::<impl i64>::abs", "num::<impl i32>::abs")
def m_abs(ev, fr, mem, callee, args):
    return tm.abs_(args[0]), mem


@model("f64::<impl f64>::signum")
def m_signum(ev, fr, mem, callee, args):
    return ite(cmp("ge", args[0], ZERO, False), ONE, num(-1)), mem


@model("f64::<impl f64>::is_sign_negative")
def m_isneg(ev, fr, mem, callee, args):
    return cmp("lt", args[0], ZERO, False), mem


@model("f64::<impl f64>::is_sign_positive")
def m_ispos(ev, fr, mem, callee, args):
    return cmp("ge", args[0], ZERO, False), mem


def cls(name):
    def f(ev, fr, mem, callee, args):
        def leaf(x):
            if x is BOT:
                return BOT
            if x.op == "num":
                return tm.boolean(name == "is_finite" or name == "is_normal" and x.a[0] != 0)
            if x.op == "sp":
                return tm.boolean((x.a[0] == "nan") == (name == "is_nan") if name != "is_finite" else False)
            # NaN and infinities are one class with the finite complement:
            # is_finite is the primitive test, is_nan its own
            return tobool(mk("op", name, (x,)))
        return tm.apply(name, leaf, (args[0],)), mem
    return f


for _n in ("is_nan", "is_finite", "is_infinite", "is_normal"):
    TABLE["f64::<impl f64>::" + _n] = cls(_n)


def fits(ity, x):
    """Does a whole number have a representation of the type?"""
    def leaf(x):
        if x is BOT:
            return BOT
        if x.op == "num" and ity in ("u64", "i64"):
            return tm.boolean((0 if ity[0] == "u" else -2**63) <= x.a[0] < 2**(64 if ity[0] == "u" else 63))
        return tobool(mk("op", "fits:" + ity, (x,)))
    return tm.apply("fits" + ity, leaf, (x,))


def int_pred(p, c):
    return p.startswith("num::<impl ")


def m_int(ev, fr, mem, callee, args):
    n = name_of(callee)
    ity = strip(callee.path).split("<impl ")[1].split(">")[0]
    unsigned = ity.startswith("u")
    a = args[0]
    b = args[1] if len(args) > 1 else None
    if n == "pow":
        if b.op == "num" and a.op == "num":
            return num(a.a[0] ** int(b.a[0])), mem
        if b.op == "num" and b.a[0] <= 6:
            r = ONE
            for _ in range(int(b.a[0])):
                r = mul(r, a)
            return r, mem
        r = opq("pow", a, b)
        if r.op == "op":
            r.ty = "u"
        return r, mem
    if n == "saturating_sub" and unsigned:
        return ite(cmp("ge", a, b, True), sub(a, b), ZERO), mem
    if n in ("saturating_add",):
        return add(a, b), mem
    if n in ("saturating_mul",):
        return mul(a, b), mem
    if n in ("checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem"):
        from .flow import idiv, irem
        if n == "checked_sub" and unsigned:
            return opt(cmp("ge", a, b, True), sub(a, b)), mem
        if n == "checked_add":
            return opt(fits(ity, add(a, b)), add(a, b)), mem
        if n == "checked_mul":
            return opt(fits(ity, mul(a, b)), mul(a, b)), mem
        if n == "checked_div":
            return opt(cmp("ne", b, ZERO, True), idiv(a, b)), mem
        if n == "checked_rem":
            return opt(cmp("ne", b, ZERO, True), irem(a, b)), mem
    if n == "abs_diff":
        return ite(cmp("ge", a, b, True), sub(a, b), sub(b, a)), mem
    if n == "div_ceil":
        from .flow import idiv
        return idiv(add(a, sub(b, ONE)), b), mem
    if n in ("rem_euclid", "div_euclid") and unsigned:
        from .flow import idiv, irem
        return (irem if n[0] == "r" else idiv)(a, b), mem
    if n == "is_multiple_of":
        from .flow import irem
        return cmp("eq", irem(a, b), ZERO, True), mem
    r = opq("int:" + n, *args)
    if r.op == "op" and not n.startswith(("checked", "overflowing")):
        r.ty = "u"
    return r, mem


PRED.append((int_pred, m_int))


@model("bool::<impl bool>::then", "bool::<impl bool>::then_some")
def m_then(ev, fr, mem, callee, args):
    c = tobool(args[0])
    if name_of(callee) == "then_some":
        return opt(c, args[1]), mem
    v, mem = guarded(ev, mem, c, lambda m: ev.call_value(m, args[1], []))
    return opt(c, v), mem


# operators on references / library types
@model("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem", "Neg::neg")
def m_arith(ev, fr, mem, callee, args):
    t = strip_ref(callee.self_ty())
    a = deep(ev, mem, args[0])
    if callee.item == "neg":
        return tm.neg(a), mem
    b = deep(ev, mem, args[1])
    if callee.item == "add" and is_text(t):
        return strcat([a, b]), mem
    if not numeric_ty(t):
        if a is sym("clock") or b is sym("clock"):
            return sym("clock"), mem
        return ev.opaque_call("call:" + callee.item, mem, args, ev.rty)
    a, b = ev.typed(a, t), ev.typed(b, t)
    from .flow import idiv, irem
    fl = t[0] == "float"
    r = {"add": lambda: add(a, b), "sub": lambda: sub(a, b), "mul": lambda: mul(a, b),
         "div": lambda: tm.div(a, b) if fl else idiv(a, b),
         "rem": lambda: opq("fmod", a, b) if fl else irem(a, b)}[callee.item]()
    return r, mem


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign", "RemAssign::rem_assign")
def m_arith_assign(ev, fr, mem, callee, args):
    t = strip_ref(callee.self_ty())
    if not numeric_ty(t):
        return ev.opaque_call("call:" + callee.item, mem, args, ev.rty)
    a = ev.typed(ev.load(mem, args[0]), t)
    b = ev.typed(deep(ev, mem, args[1]), t)
    from .flow import idiv, irem
    fl = t[0] == "float"
    n = callee.item[:3]
    r = {"add": lambda: add(a, b), "sub": lambda: sub(a, b), "mul": lambda: mul(a, b),
         "div": lambda: tm.div(a, b) if fl else idiv(a, b),
         "rem": lambda: opq("fmod", a, b) if fl else irem(a, b)}[n]()
    mem = dict(mem)
    ev.store_ref(mem, args[0], r)
    return UNIT, mem


# --------------------------------------------------------- identity-like ---
@model("IntoFuture::into_future", "hint::must_use", "convert::identity", "hint::black_box",
       "pin::Pin::new_unchecked", "pin::Pin::new", "pin::Pin::get_mut", "pin::Pin::get_unchecked_mut", "vec::Vec::into_boxed_slice",
       "string::String::into_boxed_str", "mem::ManuallyDrop::new", "boxed::Box::leak",
       "ToString::to_string", "ToOwned::to_owned")
def m_id(ev, fr, mem, callee, args):
    if callee.item in ("to_string", "to_owned"):
        t = strip_ref(callee.self_ty())
        v = deep(ev, mem, args[0])
        if callee.item == "to_string" and (t is None or t[0] != "str" and not (t[0] == "adt" and t[1].endswith("String"))):
            return mk("op", "to_string", (v,)), mem
        return v, mem
    return args[0], mem


@model("AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "vec::Vec::as_slice", "vec::Vec::as_mut_slice", "string::String::as_str", "string::String::as_mut_str",
       "pin::Pin::as_mut", "pin::Pin::as_ref", "option::Option::as_slice")
def m_ref_id(ev, fr, mem, callee, args):
    t = callee.self_ty()
    if callee.item in ("as_ref", "as_mut") and t is not None and t[0] == "adt" and t[1].endswith("boxed::Box"):
        return deref_box(ev, mem, args[0]), mem
    return args[0], mem


def subref(ev, ref, e):
    """Reference to component e behind a reference."""
    if ref is BOT:
        return BOT
    if ref.op == "case":
        return tm.join(ref.a[0], [subref(ev, c, e) for c in ref.a[1]])
    if ref.op == "ref":
        return mk("ref", ref.a[0], ref.a[1] + (e,))
    return mk("ref", ("P", ref), (e,))


def deref_box(ev, mem, ref):
    return subref(ev, ref, ("b",))


BOXES = ("boxed::Box", "sync::Arc", "rc::Rc")


@model("Deref::deref", "DerefMut::deref_mut")
def m_deref(ev, fr, mem, callee, args):
    t = callee.self_ty()
    if t is not None and t[0] == "adt":
        n = t[1]
        if n.endswith(BOXES):
            return deref_box(ev, mem, args[0]), mem
        if n.endswith(("vec::Vec", "string::String", "pin::Pin", "VecDeque", "BoundedVecDeque", "ManuallyDrop")):
            if n.endswith("pin::Pin"):
                return ev.load(mem, args[0]), mem
            return args[0], mem
        if n.endswith(("Lazy", "LazyLock")):
            return args[0], mem
        if ".State" in n or n.endswith(("State", "Json", "Extension", "Query", "Path")) and n in ev.prog.adts and len(ev.prog.adts[n]["v"][0]["f"]) == 1:
            return subref(ev, args[0], ("f", ("adt", n), 0, 0)), mem
        return subref(ev, args[0], ("f", ("adt", n), 0, 0)) if n in ev.prog.adts and ev.prog.adts[n]["kind"] == "struct" and len(ev.prog.adts[n]["v"][0]["f"]) == 1 else mk("op", "deref:" + n.rsplit("::", 1)[-1], (args[0],)), mem
    if t is not None and t[0] == "ref":
        return ev.load(mem, args[0]), mem
    return args[0], mem


@model("once_cell::sync::Lazy::new", "once_cell::unsync::Lazy::new", "sync::LazyLock::new", "sync::lazy_lock::LazyLock::new")
def m_lazy(ev, fr, mem, callee, args):
    return mk_agg(("lazy",), (args[0],)), mem


@model("boxed::Box::new", "boxed::Box::pin", "sync::Arc::new", "rc::Rc::new", "boxed::box_new")
def m_box(ev, fr, mem, callee, args):
    return mk_agg(("box",), (args[0],)), mem


@model("boxed::Box::new_uninit")
def m_box_uninit(ev, fr, mem, callee, args):
    return mk_agg(("box",), (sym("uninit"),)), mem


@model("boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(ev, fr, mem, callee, args):
    x = args[0]
    while x.op == "agg" and x.a[0][0] != "array":
        inner = [f for f in x.a[1] if f is not BOT]
        if len(inner) != 1:
            raise Unsupported("vec! of an unknown shape")
        x = inner[0]
    return x, mem


@model("Clone::clone", "option::Option::cloned", "option::Option::copied")
def m_clone(ev, fr, mem, callee, args):
    if callee.item is None:
        x = args[0]
        p = payload(x, OPTION, 1)
        return tm.mk_enum(OPTION, tag_of(x, OPTION), ((), (ev.load(mem, p),))), mem
    return ev.load(mem, args[0]), mem


@model("Clone::clone_from")
def m_clone_from(ev, fr, mem, callee, args):
    mem = dict(mem)
    ev.store_ref(mem, args[0], ev.load(mem, args[1]))
    return UNIT, mem


INT_FROM = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "f32", "f64", "u128", "i128")


@model("From::from", "Into::into")
def m_from(ev, fr, mem, callee, args):
    ta = callee.targs
    if callee.item == "from":
        dst, src = (ta + [None, None])[:2]
    else:
        src, dst = (ta + [None, None])[:2]
    a = args[0]
    if dst is not None and src is not None:
        if numeric_ty(dst) and (numeric_ty(src) or src[0] == "bool"):
            return (ite(tobool(a), ONE, ZERO) if src[0] == "bool" else a), mem
        if dst == src:
            return a, mem
        if dst[0] == "adt" and dst[1].endswith("String"):
            return deep(ev, mem, a), mem
        if dst[0] == "adt" and dst[1] == OPTION:
            return some(a), mem
        if dst[0] == "adt" and dst[1].endswith(("HashMap", "BTreeMap")) and a.op == "agg" and a.a[0][0] == "array":
            m = empty_map(dst[2][0] if len(dst) > 2 and dst[2] else None, 64)
            for x in a.a[1]:
                k, v = (proj(x, ("f", ("tuple", 2), 0, j)) for j in (0, 1))
                m = tm.mapset(m, deep(ev, mem, k), v)
            return m, mem
        if dst[0] == "adt" and dst[1].endswith("boxed::Box"):
            return mk_agg(("box",), (deep(ev, mem, a),)), mem
        if dst[0] in ("adt", "param") or src[0] == "adt":
            z = ev.prog.resolve("core::convert::From", "from", dst, [src])
            if z and z[0] in ev.prog.fns:
                return ev.run(ev.prog.fns[z[0]], args, mem, z[1])
            z = ev.prog.resolve("core::convert::Into", "into", src, [dst])
            if z and z[0] in ev.prog.fns:
                return ev.run(ev.prog.fns[z[0]], args, mem, z[1])
        if dst[0] == "adt" and dst[1].endswith("vec::Vec"):
            return deep(ev, mem, a), mem
    return mk("op", "into", (deep(ev, mem, a), mk("lit", tystr(dst)))), mem


def tystr(t):
    if t is None:
        return "?"
    if t[0] == "adt":
        return t[1] + ("<%s>" % ",".join(tystr(x) for x in t[2]) if t[2] else "")
    return str(t)


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(ev, fr, mem, callee, args):
    ta = callee.targs
    dst = ta[0] if callee.item == "try_from" else (ta[1] if len(ta) > 1 else None)
    t = tobool(mk("op", "fits:" + tystr(dst), (args[0],)))
    return tm.mk_enum(RESULT, ite(t, ZERO, ONE), ((args[0],), (mk("lit", "tryfrom_err"),))), mem


@model("Default::default")
def m_default(ev, fr, mem, callee, args):
    return default_of(ev, callee.self_ty(), mem), mem


def default_of(ev, t, mem=None):
    if t is None:
        return sym("default:?")
    if numeric_ty(t):
        return ZERO
    if t[0] == "bool":
        return FALSE
    if t[0] == "adt":
        if t[1] == OPTION:
            return none()
        if t[1].endswith(("vec::Vec", "VecDeque")):
            return mk("op", "vec_empty", ())
        if t[1].endswith(("HashMap", "BTreeMap")):
            return mk("op", "map_empty", ())
        if t[1].endswith("string::String"):
            return tm.string("")
        z = ev.prog.resolve("core::default::Default", "default", t)
        if z and z[0] in ev.prog.fns:
            r = ev.run(ev.prog.fns[z[0]], [], {}, z[1])
            if r is not None:
                return r[0]
    if t[0] == "tuple":
        return mk_agg(("tuple", len(t[1])), tuple(default_of(ev, x) for x in t[1]))
    return sym("default:" + tystr(t))


# ------------------------------------------------------------- mem ---------
@model("mem::swap")
def m_swap(ev, fr, mem, callee, args):
    a, b = ev.load(mem, args[0]), ev.load(mem, args[1])
    mem = dict(mem)
    ev.store_ref(mem, args[0], b)
    ev.store_ref(mem, args[1], a)
    return UNIT, mem


@model("mem::replace", "option::Option::replace")
def m_replace(ev, fr, mem, callee, args):
    a = ev.load(mem, args[0])
    mem = dict(mem)
    v = args[1]
    if "option" in callee.path:
        v = some(v)
    ev.store_ref(mem, args[0], v)
    return a, mem


@model("mem::take")
def m_take(ev, fr, mem, callee, args):
    a = ev.load(mem, args[0])
    mem = dict(mem)
    ev.store_ref(mem, args[0], default_of(ev, callee.self_ty()))
    return a, mem


@model("mem::drop", "mem::forget")
def m_drop(ev, fr, mem, callee, args):
    return UNIT, mem


@model("intrinsics::discriminant_value")
def m_discr_value(ev, fr, mem, callee, args):
    v = ev.load(mem, args[0])
    for t in [callee.self_ty()] + list(getattr(callee, "args", ()) or ()):
        if t is not None and t[0] == "adt" and tm.ISENUM.get(t[1]):
            return tag_of(v, t[1]), mem
    return mk("op", "discriminant", (v,)), mem


@model("mem::discriminant")
def m_discr(ev, fr, mem, callee, args):
    t = callee.self_ty()
    v = ev.load(mem, args[0])
    if t is not None and t[0] == "adt" and tm.ISENUM.get(t[1]):
        return mk_agg(("adt", "core::mem::Discriminant"), (tag_of(v, t[1]),)), mem
    return mk("op", "discriminant", (v,)), mem


# ------------------------------------------------------------- Option ------
def opt_parts(x):
    return is_v(x, OPTION, 1), payload(x, OPTION, 1)


def def_opt(*names):
    return model(*["option::Option::" + n for n in names])


@def_opt("is_some")
def o_is_some(ev, fr, mem, callee, args):
    return opt_parts(ev.load(mem, args[0]))[0], mem


@def_opt("is_none")
def o_is_none(ev, fr, mem, callee, args):
    return not_(opt_parts(ev.load(mem, args[0]))[0]), mem


@def_opt("unwrap", "expect", "unwrap_unchecked")
def o_unwrap(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    if h is FALSE:
        return None
    return v, mem


@def_opt("unwrap_or")
def o_unwrap_or(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    return ite(h, v, args[1]), mem


@def_opt("unwrap_or_default")
def o_unwrap_or_default(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    return ite(h, v, default_of(ev, callee.self_ty())), mem


@def_opt("unwrap_or_else")
def o_unwrap_or_else(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    d, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], []))
    return ite(h, v, d), mem


@def_opt("map")
def o_map(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [v]))
    return opt(h, r), mem


@def_opt("inspect")
def o_inspect(ev, fr, mem, callee, args):
    return args[0], mem


@def_opt("map_or", "map_or_else")
def o_map_or(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[2], [v]))
    d = args[1]
    if name_of(callee) == "map_or_else":
        d, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], []))
    return ite(h, r, d), mem


@def_opt("is_some_and", "is_none_or")
def o_is_some_and(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [v]))
    r = tobool(r)
    return (and_(h, r) if name_of(callee) == "is_some_and" else ite(h, r, TRUE)), mem


@def_opt("and_then")
def o_and_then(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [v]))
    return ite(h, r, none()), mem


@def_opt("filter")
def o_filter(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    mem, rf = temp(ev, mem, v)
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [rf]))
    return opt(and_(h, tobool(r)), v), mem


@def_opt("or")
def o_or(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    return ite(h, args[0], args[1]), mem


@def_opt("or_else")
def o_or_else(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    r, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], []))
    return ite(h, args[0], r), mem


@def_opt("and")
def o_and(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    return ite(h, args[1], none()), mem


@def_opt("zip")
def o_zip(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    h2, v2 = opt_parts(args[1])
    return opt(and_(h, h2), mk_agg(("tuple", 2), (v, v2))), mem


@def_opt("flatten")
def o_flatten(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    h2, v2 = opt_parts(v)
    return opt(and_(h, h2), v2), mem


@def_opt("ok_or", "ok_or_else")
def o_ok_or(ev, fr, mem, callee, args):
    h, v = opt_parts(args[0])
    e = args[1]
    if name_of(callee) == "ok_or_else":
        e, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], []))
    return tm.mk_enum(RESULT, ite(h, ZERO, ONE), ((v,), (e,))), mem


@def_opt("take")
def o_take(ev, fr, mem, callee, args):
    a = ev.load(mem, args[0])
    mem = dict(mem)
    ev.store_ref(mem, args[0], none())
    return a, mem


@def_opt("take_if")
def o_take_if(ev, fr, mem, callee, args):
    h, _ = opt_parts(ev.load(mem, args[0]))
    r = subref(ev, args[0], ("f", ("adt", OPTION), 1, 0))
    c, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [r]))
    c = and_(h, tobool(c))
    a = ev.load(mem, args[0])
    mem = dict(mem)
    ev.store_ref(mem, args[0], ite(c, none(), a))
    return ite(c, a, none()), mem


@def_opt("insert")
def o_insert(ev, fr, mem, callee, args):
    mem = dict(mem)
    ev.store_ref(mem, args[0], some(args[1]))
    return subref(ev, args[0], ("f", ("adt", OPTION), 1, 0)), mem


@def_opt("get_or_insert", "get_or_insert_with")
def o_get_or_insert(ev, fr, mem, callee, args):
    a = ev.load(mem, args[0])
    h, v = opt_parts(a)
    d = args[1]
    if name_of(callee) == "get_or_insert_with":
        d, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], []))
    mem = dict(mem)
    ev.store_ref(mem, args[0], some(ite(h, v, d)))
    return subref(ev, args[0], ("f", ("adt", OPTION), 1, 0)), mem


@def_opt("as_ref", "as_mut", "as_deref", "as_deref_mut", "as_pin_mut")
def o_as_ref(ev, fr, mem, callee, args):
    a = ev.load(mem, args[0])
    h, v = opt_parts(a)
    r = subref(ev, args[0], ("f", ("adt", OPTION), 1, 0))
    if "deref" in name_of(callee):
        t = callee.self_ty()
        if t is not None and t[0] == "adt" and t[1].endswith(BOXES):
            r = deref_box(ev, mem, r)
    return opt(h, r), mem


@def_opt("iter")
def o_iter(ev, fr, mem, callee, args):
    a = ev.load(mem, args[0])
    h, v = opt_parts(a)
    return it(src("optval", (a, subref(ev, args[0], ("f", ("adt", OPTION), 1, 0))))), mem


# ------------------------------------------------------------- Result ------
def res_parts(x):
    return is_v(x, RESULT, 0), payload(x, RESULT, 0), payload(x, RESULT, 1)


def def_res(*names):
    return model(*["result::Result::" + n for n in names])


def mk_res(h, v, e):
    return tm.mk_enum(RESULT, ite(h, ZERO, ONE), ((v,), (e,)))


@def_res("is_ok", "is_err")
def r_is(ev, fr, mem, callee, args):
    h = res_parts(ev.load(mem, args[0]))[0]
    return (h if name_of(callee) == "is_ok" else not_(h)), mem


@def_res("unwrap", "expect")
def r_unwrap(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    if h is FALSE:
        return None
    return v, mem


@def_res("unwrap_err", "expect_err")
def r_unwrap_err(ev, fr, mem, callee, args):
    return res_parts(args[0])[2], mem


@def_res("ok")
def r_ok(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    return opt(h, v), mem


@def_res("err")
def r_err(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    return opt(not_(h), e), mem


@def_res("map")
def r_map(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [v]))
    return mk_res(h, r, e), mem


@def_res("map_err")
def r_map_err(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    r, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], [e]))
    return mk_res(h, v, r), mem


@def_res("and_then")
def r_and_then(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    r, mem = guarded(ev, mem, h, lambda m: ev.call_value(m, args[1], [v]))
    return ite(h, r, err(e)), mem


@def_res("or_else")
def r_or_else(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    r, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], [e]))
    return ite(h, ok(v), r), mem


@def_res("unwrap_or")
def r_unwrap_or(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    return ite(h, v, args[1]), mem


@def_res("unwrap_or_else")
def r_unwrap_or_else(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    r, mem = guarded(ev, mem, not_(h), lambda m: ev.call_value(m, args[1], [e]))
    return ite(h, v, r), mem


@def_res("unwrap_or_default")
def r_unwrap_or_default(ev, fr, mem, callee, args):
    h, v, e = res_parts(args[0])
    return ite(h, v, default_of(ev, callee.self_ty())), mem


@def_res("as_ref", "as_mut")
def r_as_ref(ev, fr, mem, callee, args):
    h, v, e = res_parts(ev.load(mem, args[0]))
    return mk_res(h, subref(ev, args[0], ("f", ("adt", RESULT), 0, 0)), subref(ev, args[0], ("f", ("adt", RESULT), 1, 0))), mem


# ------------------------------------------------------------- ? -----------
@model("Try::branch")
def m_branch(ev, fr, mem, callee, args):
    t = callee.self_ty()
    x = args[0]
    if t[0] == "adt" and t[1] == RESULT:
        h, v, e = res_parts(x)
        return tm.mk_enum(CFLOW, ite(h, ZERO, ONE), ((v,), (err(e),))), mem
    if t[0] == "adt" and t[1] == OPTION:
        h, v = opt_parts(x)
        return tm.mk_enum(CFLOW, ite(h, ZERO, ONE), ((v,), (none(),))), mem
    return ev.opaque_call("call:branch", mem, args, ev.rty)


@model("FromResidual::from_residual")
def m_residual(ev, fr, mem, callee, args):
    ta = callee.targs
    t = ta[0]
    if t[0] == "adt" and t[1] == OPTION:
        return none(), mem
    if t[0] == "adt" and t[1] == RESULT:
        e = payload(args[0], RESULT, 1)
        se = None
        if len(ta) > 1 and ta[1][0] == "adt" and ta[1][1] == RESULT:
            se = ta[1][2][1]
        de = t[2][1]
        if se is not None and se != de:
            z = ev.prog.resolve("core::convert::From", "from", de, [se])
            if z and z[0] in ev.prog.fns:
                r = ev.run(ev.prog.fns[z[0]], [e], mem, z[1])
                if r is not None:
                    return err(r[0]), r[1]
            if de[0] == "adt" and de[1].endswith("boxed::Box"):
                return err(mk_agg(("box",), (e,))), mem
            return err(mk("op", "into", (e, mk("lit", tystr(de))))), mem
        return err(e), mem
    return ev.opaque_call("call:from_residual", mem, args, ev.rty)


# ------------------------------------------------------------ futures ------
@model("future::get_context")
def m_ctx(ev, fr, mem, callee, args):
    return sym("cx"), mem


def drive(ev, mem, fut):
    """What the future evaluates to when it is awaited to its end."""
    n = 0
    while fut.op == "agg" and (fut.a[0][0] == "box" or fut.a[0][0] == "adt" and fut.a[0][1].endswith("Pin")) and n < 4:
        fut = fut.a[1][0]
        fut = ev.load(mem, fut) if fut.op in ("ref", "case") else fut
        n += 1
    if fut.op == "agg" and fut.a[0][0] == "coroutine":
        fn = ev.prog.fns.get(fut.a[0][1])
        if fn is not None:
            return ev.run(fn, [fut, sym("cx")][:fn.argc], mem, ev.closure_env.get(fn.id, {}))
    if fut.op == "agg" and fut.a[0][0] == "spawned":
        r = ev.call_value(mem, fut.a[1][0], [])
        if r is not None and fut.a[0][1].startswith("tokio::"):
            return mk_res(sym("joined", "bool"), r[0], sym("join_error")), r[1]
        return r
    if fut.op == "agg" and fut.a[0][0] == "joined":
        # which of several failures is reported is not determined; the first stands for it
        rs = []
        for f in fut.a[1]:
            r = drive(ev, mem, f)
            if r is None:
                return None
            rs.append(r[0])
            mem = r[1]
        v = ok(mk_agg(("tuple", len(rs)), tuple(payload(r, RESULT, 0) for r in rs)))
        for r in reversed(rs):
            bad = is_v(r, RESULT, 1)
            v = mk_res(and_(not_(bad), is_v(v, RESULT, 0)), payload(v, RESULT, 0), ite(bad, payload(r, RESULT, 1), payload(v, RESULT, 1)))
        return v, mem
    if fut.op == "op" and fut.a[0] == "try_join_all" and fut.a[1][0].op == "op" and fut.a[1][0].a[0] == "tab":
        n, x, f = fut.a[1][0].a[1]
        r = drive(ev, mem, f)
        if r is not None:
            a = tm.tab(n, x, r[0])
            return mk_res(tobool(mk("op", "all_ok", (a,))), tm.tab(n, x, payload(r[0], RESULT, 0)), mk("op", "first_err", (a,))), r[1]
    return mk("op", "await", (fut,)), mem


@model("Future::poll")
def m_poll(ev, fr, mem, callee, args):
    p = args[0]
    if p.op == "agg" and p.a[0][0] == "adt" and p.a[0][1].endswith("Pin"):
        p = p.a[1][0]
    fut = ev.load(mem, p) if p.op in ("ref", "case") else p
    r = drive(ev, mem, deep(ev, mem, fut))
    return None if r is None else (enum_val(POLL, 0, (r[0],)), r[1])


@model("futures::future::try_join_all", "futures::future::join_all")
def m_join_all(ev, fr, mem, callee, args):
    return mk("op", callee.item or strip(callee.path).split("::")[-1], (freeze(ev, mem, source(ev, mem, args[0])),)), mem


@model("tokio_rayon::spawn", "tokio_rayon::spawn_fifo", "tokio::task::spawn_blocking")
def m_spawn(ev, fr, mem, callee, args):
    return mk_agg(("spawned", strip(callee.path)), (args[0],)), mem


@model("futures::future::try_join", "futures::future::try_join3", "futures::future::try_join4", "futures::future::try_join5")
def m_join(ev, fr, mem, callee, args):
    return mk_agg(("joined", len(args)), tuple(args)), mem


# ------------------------------------------------------------ sequences ----
def temp(ev, mem, v):
    ev.uid += 1
    root = ("X", "t", ev.uid)
    mem = dict(mem)
    mem[root] = v
    return mem, mk("ref", root, ())


def src(kind, fields):
    return mk_agg(("src", kind), fields)


def it(s, pos=ZERO):
    return mk_agg(("iter",), (pos, s))


def is_iter(v):
    return v.op == "agg" and v.a[0] == ("iter",)


RANGE = "core::ops::range::Range"


def slen(ev, mem, s):
    """Number of items of a source, None if unknown."""
    k = s.a[0][1]
    f = s.a[1]
    if k == "slice":
        return tm.length(ev.load(mem, f[0]))
    if k == "vals":
        return tm.length(f[0])
    if k == "range":
        return ite(cmp("ge", f[1], f[0], True), sub(f[1], f[0]), ZERO)
    if k == "from":
        return None
    if k == "map" or k == "enumerate" or k == "cloned" or k == "rev" or k == "filter" or k == "inspect" or k == "filter_map":
        return slen(ev, mem, f[0])
    if k == "zip":
        a, b = slen(ev, mem, f[0]), slen(ev, mem, f[1])
        if a is None or b is None:
            return b if a is None else a
        return tm.min_(a, b, True)
    if k == "chain":
        return add(slen(ev, mem, f[0]), slen(ev, mem, f[1]))
    if k == "skip":
        a = slen(ev, mem, f[0])
        if a is None:
            return None
        return ite(cmp("ge", a, f[1], True), sub(a, f[1]), ZERO)
    if k == "take":
        a = slen(ev, mem, f[0])
        return f[1] if a is None else tm.min_(a, f[1], True)
    if k == "step":
        a = slen(ev, mem, f[0])
        if a is None:
            return None
        from .flow import idiv
        return idiv(add(a, sub(f[1], ONE)), f[1])
    if k == "windows":
        n = tm.length(ev.load(mem, f[0]))
        return ite(cmp("ge", n, f[1], True), add(sub(n, f[1]), ONE), ZERO)
    if k == "chunks":
        from .flow import idiv
        n = tm.length(ev.load(mem, f[0]))
        return idiv(add(n, sub(f[1], ONE)), f[1])
    if k == "once":
        return ONE
    if k == "empty":
        return ZERO
    if k == "optval":
        return ite(is_v(f[0], OPTION, 1), ONE, ZERO)
    if k == "arr":
        return num(len(f))
    if k == "flat":
        n = slen(ev, mem, f[0])
        return mul(n, f[2])
    if k == "cart":
        return mul(slen(ev, mem, f[0]), slen(ev, mem, f[1]))
    if k == "opaque":
        return tm.length(f[0])
    raise ev.Unsupported("source " + k)


def plain(item):
    return (TRUE, item)


def sitem(ev, mem, s, i):
    """i-th item of a source: (keep, item, mem)."""
    k = s.a[0][1]
    f = s.a[1]
    if k == "slice":
        return TRUE, subref(ev, f[0], ("ix", i)), mem
    if k in ("vals", "opaque"):
        return TRUE, tm.select(f[0], i), mem
    if k in ("range", "from"):
        return TRUE, add(f[0], i), mem
    if k == "map":
        kp, x, mem = sitem(ev, mem, f[0], i)
        r, mem = guarded(ev, mem, kp, lambda m: ev.call_value(m, f[1], [x]))
        return kp, r, mem
    if k == "inspect":
        kp, x, mem = sitem(ev, mem, f[0], i)
        mem, rf = temp(ev, mem, x)
        _, mem = guarded(ev, mem, kp, lambda m: ev.call_value(m, f[1], [rf]))
        return kp, x, mem
    if k == "filter":
        kp, x, mem = sitem(ev, mem, f[0], i)
        mem, rf = temp(ev, mem, x)
        r, mem = guarded(ev, mem, kp, lambda m: ev.call_value(m, f[1], [rf]))
        return and_(kp, tobool(r)), x, mem
    if k == "filter_map":
        kp, x, mem = sitem(ev, mem, f[0], i)
        r, mem = guarded(ev, mem, kp, lambda m: ev.call_value(m, f[1], [x]))
        return and_(kp, is_v(r, OPTION, 1)), payload(r, OPTION, 1), mem
    if k == "enumerate":
        kp, x, mem = sitem(ev, mem, f[0], i)
        j = i
        if filtering(f[0]):
            j = mk("op", "filterpos", (f[0], i))
            j.ty = "u"
        return kp, mk_agg(("tuple", 2), (j, x)), mem
    if k == "cloned":
        kp, x, mem = sitem(ev, mem, f[0], i)
        return kp, ev.load(mem, x), mem
    if k == "rev":
        n = slen(ev, mem, f[0])
        return sitem(ev, mem, f[0], sub(sub(n, ONE), i))
    if k == "zip":
        if filtering(f[0]) or filtering(f[1]):
            raise ev.Unsupported("zip of a filtered iterator")
        _, x, mem = sitem(ev, mem, f[0], i)
        _, y, mem = sitem(ev, mem, f[1], i)
        return TRUE, mk_agg(("tuple", 2), (x, y)), mem
    if k == "chain":
        n = slen(ev, mem, f[0])
        c = cmp("lt", i, n, True)
        k1, x, m1 = sitem(ev, mem, f[0], i)
        k2, y, m2 = sitem(ev, mem, f[1], sub(i, n))
        g, m = ev.merge_states([(c, m1), (not_(c), m2)])
        return ite(c, k1, k2), ite(c, x, y), m
    if k == "skip":
        return sitem(ev, mem, f[0], add(i, f[1]))
    if k == "take":
        return sitem(ev, mem, f[0], i)
    if k == "step":
        return sitem(ev, mem, f[0], mul(i, f[1]))
    if k == "windows":
        return TRUE, subref(ev, f[0], ("sub", i, add(i, f[1]))), mem
    if k == "chunks":
        n = tm.length(ev.load(mem, f[0]))
        lo = mul(i, f[1])
        return TRUE, subref(ev, f[0], ("sub", lo, tm.min_(add(lo, f[1]), n, True))), mem
    if k == "once":
        return TRUE, f[0], mem
    if k == "optval":
        return TRUE, f[1], mem
    if k == "arr":
        r = f[-1]
        for j in range(len(f) - 2, -1, -1):
            r = ite(cmp("eq", i, num(j), True), f[j], r)
        return TRUE, r, mem
    if k == "flat":
        from .flow import idiv, irem
        n = f[2]
        kp, x, mem = sitem(ev, mem, f[0], idiv(i, n))
        r, mem = guarded(ev, mem, kp, lambda m: ev.call_value(m, f[1], [x]))
        inner = source(ev, mem, r)
        k2, y, mem = sitem(ev, mem, inner, irem(i, n))
        return and_(kp, k2), y, mem
    if k == "cart":
        from .flow import idiv, irem
        n = slen(ev, mem, f[1])
        k1, x, mem = sitem(ev, mem, f[0], idiv(i, n))
        k2, y, mem = sitem(ev, mem, f[1], irem(i, n))
        return and_(k1, k2), mk_agg(("tuple", 2), (x, y)), mem
    raise ev.Unsupported("source " + k)


def filtering(s):
    k = s.a[0][1]
    if k in ("filter", "filter_map"):
        return True
    if k in ("slice", "vals", "range", "from", "windows", "once", "arr", "optval", "opaque", "chunks", "empty"):
        return False
    return any(filtering(x) for x in s.a[1] if x.op == "agg" and x.a[0][0] == "src")


SPENT = mk("op", "spent", ())


def spent(ev, v):
    if v is SPENT or v.op == "case" and any(c is SPENT for c in v.a[1]):
        raise ev.Unsupported("iterator used again after it was partly consumed")


def spend(ev, mem, ref):
    """An iterator a search stopped in the middle of: not to be read again."""
    for _ in range(4):
        if ref.op != "ref":
            return mem
        v = ev.load(mem, ref)
        if v.op == "ref":
            ref = v
        elif is_iter(v) or v.op == "agg" and v.a[0] in (("adt", RANGE), ("rangei",)):
            mem = dict(mem)
            ev.store_ref(mem, ref, SPENT)
            return mem
        else:
            return mem
    return mem


def source(ev, mem, v):
    """Source of anything that can be iterated by value."""
    spent(ev, v)
    if is_iter(v):
        pos, s = v.a[1]
        if pos is ZERO:
            return s
        return src("skip", (s, pos))
    if v.op == "agg" and v.a[0][0] == "src":
        return v
    if v.op == "agg" and v.a[0] == ("adt", RANGE):
        return src("range", v.a[1])
    if v.op == "agg" and v.a[0][0] == "adt" and v.a[0][1].endswith("RangeFrom"):
        return src("from", v.a[1])
    if v.op == "agg" and v.a[0] == ("rangei",):
        return src("range", (v.a[1][0], add(v.a[1][1], ONE)))
    if v.op == "enum" and v.a[0] == OPTION:
        return src("optval", (v, payload(v, OPTION, 1)))
    if v.op == "ref":
        t = ev.load(mem, v)
        if is_iter(t):
            return source(ev, mem, t)
        return src("slice", (v,))
    return src("vals", (v,))


@model("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter")
def m_into_iter(ev, fr, mem, callee, args):
    t = callee.self_ty()
    v = args[0]
    if is_iter(v) or (v.op == "agg" and v.a[0] == ("adt", RANGE)):
        return v, mem
    if t is not None and t[0] == "ref":
        w = ev.load(mem, v)
        if is_iter(w) or w is SPENT:
            return v, mem
        return it(src("slice", (v,))), mem
    if t is not None and t[0] == "adt" and t[1].endswith(("HashMap", "HashSet")):
        return it(src("opaque", (mk("op", "hash_iter", (v,)),))), mem
    if v.op == "agg" and v.a[0][0] == "array":
        return it(src("vals", (v,))), mem
    if t is not None and t[0] == "adt" and t[1] in ev.prog.adts and ev.prog.adts[t[1]]["local"]:
        # a local iterator type
        return v, mem
    return it(source(ev, mem, v)), mem


@model("slice::<impl [T]>::iter", "slice::<impl [T]>::iter_mut", "collections::VecDeque::iter", "collections::VecDeque::iter_mut",
       "bounded_vec_deque::BoundedVecDeque::iter", "bounded_vec_deque::BoundedVecDeque::iter_mut",
       "IntoParallelRefIterator::par_iter", "IntoParallelRefMutIterator::par_iter_mut")
def m_iter(ev, fr, mem, callee, args):
    return it(src("slice", (args[0],))), mem


@model("slice::<impl [T]>::windows")
def m_windows(ev, fr, mem, callee, args):
    return it(src("windows", (args[0], args[1]))), mem


@model("slice::<impl [T]>::chunks", "slice::<impl [T]>::chunks_exact", "slice::<impl [T]>::chunks_mut", "slice::<impl [T]>::chunks_exact_mut")
def m_chunks(ev, fr, mem, callee, args):
    if "exact" in strip(callee.path):
        from .flow import idiv
        n = tm.length(ev.load(mem, args[0]))
        return it(src("take", (src("chunks", (args[0], args[1])), idiv(n, args[1])))), mem
    return it(src("chunks", (args[0], args[1]))), mem


@model("iter::once")
def m_once(ev, fr, mem, callee, args):
    return it(src("once", (args[0],))), mem


@model("iter::empty")
def m_empty(ev, fr, mem, callee, args):
    return it(src("empty", ())), mem


@model("iter::repeat")
def m_repeat(ev, fr, mem, callee, args):
    return it(src("map", (src("from", (ZERO,)), mk_agg(("constfn",), (args[0],))))), mem


@model("ops::RangeInclusive::new")
def m_rangei(ev, fr, mem, callee, args):
    return mk_agg(("rangei",), (args[0], args[1])), mem


@model("ops::Range::contains", "ops::RangeInclusive::contains", "RangeBounds::contains")
def m_contains(ev, fr, mem, callee, args):
    r = ev.load(mem, args[0])
    x = deep(ev, mem, args[1])
    t = callee.self_ty()
    integer = not (t is not None and (t[0] == "float" or (t[0] == "adt" and t[2] and t[2][0][0] == "float")))
    if r.op == "agg":
        incl = r.a[0] == ("rangei",)
        lo, hi = r.a[1][0], r.a[1][1]
        return and_(cmp("ge", x, lo, integer), cmp("le" if incl else "lt", x, hi, integer)), mem
    return tobool(mk("op", "contains", (r, x))), mem


def adapt(kind, extra=0):
    def f(ev, fr, mem, callee, args):
        s = source(ev, mem, args[0])
        mem = spend(ev, mem, args[0])
        if kind in ("skip", "take", "step") and filtering(s):
            # counted among the items that are kept
            r = consume(ev, mem, s, mk("op", "vec_empty", ()), lambda acc, x, m: (mk("op", "push", (acc, x)), m))
            if r is None:
                return None
            s, mem = src("vals", (r[0],)), r[1]
        return it(src(kind, (s,) + tuple(args[1:1 + extra]))), mem
    return f


for _p in ("Iterator", "ParallelIterator", "IndexedParallelIterator", "DoubleEndedIterator"):
    for _n, _k, _e in (("map", "map", 1), ("enumerate", "enumerate", 0), ("cloned", "cloned", 0), ("copied", "cloned", 0),
                       ("rev", "rev", 0), ("filter", "filter", 1), ("filter_map", "filter_map", 1), ("skip", "skip", 1),
                       ("take", "take", 1), ("step_by", "step", 1), ("inspect", "inspect", 1)):
        TABLE[_p + "::" + _n] = adapt(_k, _e)
    for _n in ("by_ref", "fuse", "peekable", "with_min_len", "with_max_len"):
        def _byref(ev, fr, mem, callee, args):
            return args[0], mem
        TABLE[_p + "::" + _n] = _byref


@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
def m_zip(ev, fr, mem, callee, args):
    return it(src("zip", (source(ev, mem, args[0]), source(ev, mem, args[1])))), mem


@model("Itertools::cartesian_product")
def m_cart(ev, fr, mem, callee, args):
    a, b = (source(ev, mem, x) for x in args)
    if slen(ev, mem, a) is None or slen(ev, mem, b) is None:
        raise ev.Unsupported("product of an endless iterator")
    return it(src("cart", (a, b))), mem


@model("Iterator::chain")
def m_chain(ev, fr, mem, callee, args):
    return it(src("chain", (source(ev, mem, args[0]), source(ev, mem, args[1])))), mem


@model("Iterator::flat_map", "ParallelIterator::flat_map")
def m_flat_map(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    j = sym("flat_index", "u")
    kp, x, m2 = sitem(ev, mem, s, j)
    r = ev.call_value(m2, args[1], [x])
    if r is not None:
        inner = source(ev, r[1], r[0])
        n = slen(ev, r[1], inner)
        if n is not None and not filtering(inner) and not tm.occurs(j, n):
            return it(src("flat", (s, args[1], n))), mem
    return it(src("opaque", (mk("op", "flat_map", (s, args[1])),))), mem


@model("Iterator::sorted", "Itertools::unique", "Itertools::sorted", "Itertools::dedup")
def m_unique(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    f = freeze(ev, mem, s)
    _, x, _ = sitem(ev, mem, s, sym("unique_index", "u"))
    if x.op == "ref" or x.op == "case" and all(c.op == "ref" for c in x.a[1]):
        # references are compared by what they point at
        mem, r = temp(ev, mem, mk("op", callee.item, (f,)))
        return it(src("slice", (r,))), mem
    return it(src("opaque", (mk("op", callee.item, (f,)),))), mem


def freeze(ev, mem, s):
    """Source as a value: closures and references replaced by what they read."""
    r = consume(ev, mem, s, mk("op", "vec_empty", ()), lambda acc, x, m: (mk("op", "push", (acc, deep(ev, m, x))), m))
    if r is None:
        return s
    return r[0]


@model("DoubleEndedIterator::next_back")
def m_next_back(ev, fr, mem, callee, args):
    ref = args[0]
    v = ev.load(mem, ref)
    for _ in range(4):
        if v.op == "ref":
            ref = v
            v = ev.load(mem, ref)
    spent(ev, v)
    if not is_iter(v) and not (v.op == "agg" and v.a[0] in (("adt", RANGE), ("rangei",))):
        return ev.opaque_call("call:next_back", mem, args, ev.rty, mutable={0})
    s = source(ev, mem, v)
    if filtering(s):
        raise ev.Unsupported("next_back of a filtered iterator")
    n = slen(ev, mem, s)
    if n is None:
        raise ev.Unsupported("next_back of an endless iterator")
    h = cmp("gt", n, ZERO, True)
    last = sub(n, ONE)
    r, mem = guarded(ev, mem, h, lambda m: (lambda q: (q[1], q[2]))(sitem(ev, m, s, last)))
    mem = dict(mem)
    if v.op == "agg" and v.a[0] == ("adt", RANGE):
        ev.store_ref(mem, ref, mk_agg(v.a[0], (v.a[1][0], sub(v.a[1][1], ONE))))
    else:
        ev.store_ref(mem, ref, it(src("take", (s, ite(h, last, ZERO)))))
    return opt(h, r), mem


@model("Iterator::next")
def m_next(ev, fr, mem, callee, args):
    ref = args[0]
    v = ev.load(mem, ref)
    for _ in range(4):
        if v.op == "ref":
            ref = v
            v = ev.load(mem, ref)
    if v.op == "agg" and v.a[0] == ("adt", RANGE):
        lo, hi = v.a[1]
        h = cmp("lt", lo, hi, True)
        mem = dict(mem)
        ev.store_ref(mem, ref, mk_agg(v.a[0], (add(lo, ONE), hi)))
        return opt(h, lo), mem
    if v.op == "agg" and v.a[0] == ("rangei",):
        v = it(src("range", (v.a[1][0], add(v.a[1][1], ONE))))
    spent(ev, v)
    if not is_iter(v):
        t = callee.self_ty()
        return ev.opaque_call("call:next", mem, args, ev.rty, mutable={0})
    pos, s = v.a[1]
    n = slen(ev, mem, s)
    h = TRUE if n is None else cmp("lt", pos, n, True)
    m2 = dict(mem)
    kp, x, m2 = sitem(ev, m2, s, pos)
    ev.store_ref(m2, ref, mk_agg(("iter",), (add(pos, ONE), s)))
    # effects of producing the item happen only if there is one
    if h is not TRUE:
        out = {}
        for k, w in m2.items():
            o = mem.get(k)
            if o is w or o is None:
                out[k] = w
            elif ref.op == "ref" and k == ref.a[0]:
                out[k] = w
            else:
                out[k] = ite(h, w, o)
        m2 = out
    tag = ite(h, ite(kp, num(1), num(SKIP)), num(0))
    return tm.mk_enum(OPTION, tag, ((), (x,))), m2


def consume(ev, mem, s, init, f, stop=None):
    """Folds f(acc, item, mem) -> (acc, mem[, stop]) over a source."""
    ev.uid += 1
    pr, ar = ("X", "pos", ev.uid), ("X", "acc", ev.uid)
    ev.rootty[pr] = "u"
    m0 = dict(mem)
    m0[pr] = ZERO
    m0[ar] = init

    def body(m):
        pos, acc = m[pr], m[ar]
        n = slen(ev, m, s)
        h = TRUE if n is None else cmp("lt", pos, n, True)
        kp, x, m2 = sitem(ev, m, s, pos)
        r = f(acc, x, dict(m2))
        if r is None:
            return None, (not_(h), m)
        if len(r) == 3:
            nacc, m3, st = r
        else:
            nacc, m3 = r
            st = FALSE
        if kp is not TRUE:
            st = and_(kp, st)
            nacc = ite(kp, nacc, acc)
            m4 = {}
            for k, w in m3.items():
                o = m2.get(k)
                if o is w or o is None:
                    m4[k] = w
                else:
                    m4[k] = ite(kp, w, o)
            m3 = m4
        m3 = dict(m3)
        m3[ar] = nacc
        m3[pr] = pos
        mexit = dict(m3)
        m3[pr] = add(pos, ONE)
        go = and_(h, not_(st))
        outs = [(not_(h), m)]
        if st is not FALSE:
            outs.append((and_(h, st), mexit))
        ge, me = ev.merge_states(outs)
        return ((go, m3) if go is not FALSE else None), ((ge, me) if ge is not FALSE else None)
    out = ev.fix(m0, body)
    if out is None:
        return None
    acc = out.pop(ar)
    out.pop(pr, None)
    return acc, out


@model("Iterator::fold")
def m_fold(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])
    return consume(ev, mem, s, args[1], lambda acc, x, m: ev.call_value(m, args[2], [acc, x]))


def try_kind(ev):
    """How the type a fallible walk answers with says whether it goes on."""
    t = ev.rty
    p = t[1] if t is not None and t[0] == "adt" else None
    if p == RESULT:
        return ok, RESULT, 0, lambda r: is_v(r, RESULT, 1)
    if p == OPTION:
        return some, OPTION, 1, lambda r: is_v(r, OPTION, 0)
    if p is not None and p.endswith("ControlFlow"):
        return (lambda x: tm.mk_enum(p, ZERO, ((x,), (BOT,)))), p, 0, lambda r: is_v(r, p, 1)
    raise ev.Unsupported("fallible walk of " + str(t)[:60])


@model("Iterator::try_fold")
def m_try_fold(ev, fr, mem, callee, args):
    v = args[0]
    s = source(ev, mem, deep(ev, mem, v))
    mem = spend(ev, mem, v)
    wrap, path, var, stops = try_kind(ev)

    def f(acc, x, m):
        r = ev.call_value(m, args[2], [payload(acc, path, var), x])
        if r is None:
            return None
        return r[0], r[1], stops(r[0])
    return consume(ev, mem, s, wrap(args[1]), f)


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_for_each(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])

    def f(acc, x, m):
        r = ev.call_value(m, args[1], [x])
        return None if r is None else (UNIT, r[1])
    return consume(ev, mem, s, UNIT, f)


@model("Iterator::try_for_each")
def m_try_for_each(ev, fr, mem, callee, args):
    s = source(ev, mem, deep(ev, mem, args[0]))
    mem = spend(ev, mem, args[0])
    wrap, _, _, stops = try_kind(ev)

    def f(acc, x, m):
        r = ev.call_value(m, args[1], [x])
        if r is None:
            return None
        return r[0], r[1], stops(r[0])
    return consume(ev, mem, s, wrap(UNIT), f)


@model("Iterator::sum", "ParallelIterator::sum")
def m_sum(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])

    def f(acc, x, m):
        y = deep(ev, m, x)
        return add(acc, y), m
    return consume(ev, mem, s, ZERO, f)


@model("Iterator::product", "ParallelIterator::product")
def m_product(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])
    return consume(ev, mem, s, ONE, lambda acc, x, m: (mul(acc, deep(ev, m, x)), m))


@model("Iterator::count", "ExactSizeIterator::len", "ParallelIterator::count")
def m_count(ev, fr, mem, callee, args):
    v = deep(ev, mem, args[0])
    s = source(ev, mem, v)
    if not filtering(s):
        n = slen(ev, mem, s)
        if n is not None:
            return n, mem
    return consume(ev, mem, s, ZERO, lambda acc, x, m: (add(acc, ONE), m))


@model("Iterator::any", "Iterator::all")
def m_any(ev, fr, mem, callee, args):
    s = source(ev, mem, deep(ev, mem, args[0]))
    mem = spend(ev, mem, args[0])
    any_ = callee.item == "any"

    def f(acc, x, m):
        r = ev.call_value(m, args[1], [x])
        if r is None:
            return None
        c = tobool(r[0])
        st = c if any_ else not_(c)
        return ite(st, tm.boolean(any_), acc), r[1], st
    return consume(ev, mem, s, tm.boolean(not any_), f)


@model("Iterator::find", "Iterator::position", "Iterator::find_map")
def m_find(ev, fr, mem, callee, args):
    s = source(ev, mem, deep(ev, mem, args[0]))
    mem = spend(ev, mem, args[0])
    n = callee.item

    def f(acc, x, m):
        a = x
        if n == "find":
            m, a = temp(ev, m, x)
        r = ev.call_value(m, args[1], [a])
        if r is None:
            return None
        v, m = r
        cnt, res = acc.a[1]
        if n == "find_map":
            st = is_v(v, OPTION, 1)
            nv = v
        else:
            st = tobool(v)
            nv = some(x if n == "find" else cnt)
        return mk_agg(("acc", 2), (add(cnt, ONE), ite(st, nv, res))), m, st
    r = consume(ev, mem, s, mk_agg(("acc", 2), (ZERO, none())), f)
    return None if r is None else (r[0].a[1][1], r[1])


def best(callee_item):
    pass


@model("Iterator::max_by", "Iterator::min_by", "Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key")
def m_best(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])
    n = callee.item
    big = n.startswith("max")

    def f(acc, x, m):
        h, cur = opt_parts(acc)
        if n.endswith("_by"):
            m, ra = temp(ev, m, cur)
            m, rb = temp(ev, m, x)
            r = ev.call_value(m, args[1], [ra, rb])
            if r is None:
                return None
            o, m = r
            gt = cmp("eq", tag_of(o, ORDERING), num(2), True)
            cur_gt = gt
        elif n.endswith("_by_key"):
            m, ra = temp(ev, m, cur)
            m, rb = temp(ev, m, x)
            r = ev.call_value(m, args[1], [ra])
            if r is None:
                return None
            r2 = ev.call_value(r[1], args[1], [rb])
            m = r2[1]
            cur_gt = cmp("gt", deep(ev, m, r[0]), deep(ev, m, r2[0]), False)
        else:
            cur_gt = cmp("gt", deep(ev, m, cur), deep(ev, m, x), True)
        take = (not_(cur_gt)) if big else cur_gt
        return opt(TRUE, ite(and_(h, not_(take)), cur, x)), m
    return consume(ev, mem, s, none(), f)


@model("Iterator::last")
def m_last(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])
    if not filtering(s):
        n = slen(ev, mem, s)
        kp, x, mem = sitem(ev, mem, s, sub(n, ONE))
        return opt(cmp("gt", n, ZERO, True), x), mem
    return consume(ev, mem, s, none(), lambda acc, x, m: (some(x), m))


@model("Iterator::nth")
def m_nth(ev, fr, mem, callee, args):
    v = ev.load(mem, args[0]) if args[0].op == "ref" else args[0]
    s = source(ev, mem, v)
    if filtering(s):
        return ev.opaque_call("call:nth", mem, args, ev.rty)
    n = slen(ev, mem, s)
    kp, x, mem = sitem(ev, mem, s, args[1])
    mem = dict(mem)
    if args[0].op == "ref":
        ev.store_ref(mem, args[0], it(src("skip", (s, add(args[1], ONE)))))
    return opt(cmp("gt", n, args[1], True), x), mem


@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter")
def m_collect(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])
    ta = callee.targs
    dst = ta[-1] if callee.item == "collect" and ta else (ta[0] if ta else None)
    if dst is not None and dst[0] == "adt" and dst[1].endswith(("HashMap", "BTreeMap", "IndexMap")):
        def g(acc, x, m):
            k, v = (proj(x, ("f", ("tuple", 2), 0, j)) for j in (0, 1))
            return tm.mapset(acc, deep(ev, m, k), v), m
        return consume(ev, mem, s, empty_map(dst[2][0] if len(dst) > 2 and dst[2] else None, 64), g)
    if dst is not None and dst[0] == "adt" and dst[1] == RESULT:
        def g(acc, x, m):
            bad = is_v(x, RESULT, 1)
            a = payload(acc, RESULT, 0)
            return mk_res(not_(bad), mk("op", "push", (a, payload(x, RESULT, 0))), payload(x, RESULT, 1)), m, bad
        return consume(ev, mem, s, ok(mk("op", "vec_empty", ())), g)
    if dst is not None and dst[0] == "adt" and dst[1] == OPTION:
        def g(acc, x, m):
            h, _ = opt_parts(x)
            return opt(h, mk("op", "push", (payload(acc, OPTION, 1), payload(x, OPTION, 1)))), m, not_(h)
        return consume(ev, mem, s, some(mk("op", "vec_empty", ())), g)
    as_set = dst is not None and dst[0] == "adt" and dst[1].endswith("Set")
    if dst is not None and not as_set and not (dst[0] in ("box", "slice", "array", "param") or dst[0] == "adt" and (
            dst[1].endswith(("Vec", "VecDeque", "Box", "Arc", "Rc")))):
        raise ev.Unsupported("collect into " + str(dst)[:60])
    if s.a[0][1] == "vals":
        r = s.a[1][0], mem
    else:
        r = consume(ev, mem, s, mk("op", "vec_empty", ()), lambda acc, x, m: (mk("op", "push", (acc, x)), m))
    if as_set and r is not None:
        return mk("op", "set_of", (mk("lit", dst[1].rsplit("::", 1)[-1]), deep(ev, r[1], r[0]))), r[1]
    return r


@model("Iterator::unzip")
def m_unzip(ev, fr, mem, callee, args):
    s = source(ev, mem, args[0])
    mem = spend(ev, mem, args[0])
    e = mk("op", "vec_empty", ())

    def f(acc, x, m):
        return mk_agg(("tuple", 2), tuple(mk("op", "push", (acc.a[1][j], proj(x, ("f", ("tuple", 2), 0, j)))) for j in (0, 1))), m
    return consume(ev, mem, s, mk_agg(("tuple", 2), (e, e)), f)


# ---- vectors
@model("vec::Vec::new", "vec::Vec::with_capacity", "collections::VecDeque::new", "collections::VecDeque::with_capacity")
def v_new(ev, fr, mem, callee, args):
    return mk("op", "vec_empty", ()), mem


@model("bounded_vec_deque::BoundedVecDeque::new")
def bv_new(ev, fr, mem, callee, args):
    return mk("op", "bvec_empty", (args[0],)), mem


@model("vec::from_elem")
def v_from_elem(ev, fr, mem, callee, args):
    return mk("op", "repeat", (args[0], args[1])), mem


@model("vec::Vec::len", "slice::<impl [T]>::len", "collections::VecDeque::len", "bounded_vec_deque::BoundedVecDeque::len",
       "str::<impl str>::len", "string::String::len")
def v_len(ev, fr, mem, callee, args):
    return tm.length(ev.load(mem, args[0])), mem


@model("vec::Vec::is_empty", "slice::<impl [T]>::is_empty", "collections::VecDeque::is_empty", "str::<impl str>::is_empty",
       "string::String::is_empty", "bounded_vec_deque::BoundedVecDeque::is_empty")
def v_is_empty(ev, fr, mem, callee, args):
    return cmp("eq", tm.length(ev.load(mem, args[0])), ZERO, True), mem


# ---- strings are values; the result of slicing one is a reference to a part
def strref(v):
    if v.op == "case":
        return tm.apply("strref", strref, (v,))
    return v if v is BOT or v.op == "str" else mk("op", "&", (v,))


def strm(*names):
    return model(*["str::<impl str>::" + n for n in names])


def str_pattern(ev, mem, p, t):
    """The predicate on a character a pattern stands for."""
    t = strip_ref(t) if t is not None else None
    if t is not None and t[0] == "char":
        return tm.eq_generic(tm.sym("%char"), deep(ev, mem, p))
    if t is not None and t[0] in ("closure", "fndef", "fnptr"):
        r = ev.call_value(mem, p, [tm.sym("%char")])
        return None if r is None else r[0]
    return mk("op", "pattern", (deep(ev, mem, p),))


@strm("find", "rfind", "contains", "starts_with", "ends_with")
def str_find(ev, fr, mem, callee, args):
    n = name_of(callee)
    s = ev.load(mem, args[0])
    p = str_pattern(ev, mem, args[1], callee.targs[-1] if callee.targs else None)
    if p is None:
        return None
    if n in ("find", "rfind"):
        i = mk("op", n, (s, p))
        i.ty = "u"
        return opt(tobool(mk("op", "str_contains", (s, p))), i), mem
    return tobool(mk("op", "str_" + n, (s, p))), mem


@strm("split_at")
def str_split_at(ev, fr, mem, callee, args):
    s = ev.load(mem, args[0])
    ev.slices.append((s, args[1]))
    return mk_agg(("tuple", 2), (strref(tm.subseq(s, ZERO, args[1])), strref(tm.subseq(s, args[1], tm.length(s))))), mem


@strm("parse")
def str_parse(ev, fr, mem, callee, args):
    t = callee.targs[0] if callee.targs else None
    z = t and ev.prog.resolve("core::str::traits::FromStr", "from_str", t, [])
    if z and z[0] in ev.prog.fns:
        return ev.run(ev.prog.fns[z[0]], args, mem, z[1])
    s = ev.load(mem, args[0])
    x = mk("op", "parsed:" + tystr(t), (s,))
    if t is not None and t[0] == "uint":
        x.ty = "u"
    return tm.mk_enum(RESULT, ite(tobool(mk("op", "parses:" + tystr(t), (s,))), ZERO, ONE), ((x,), (mk("op", "parse_err:" + tystr(t), (s,)),))), mem


@model("FromStr::from_str")
def m_from_str(ev, fr, mem, callee, args):
    t = callee.self_ty()
    z = ev.prog.resolve("core::str::traits::FromStr", "from_str", t, [])
    if z and z[0] in ev.prog.fns:
        return ev.run(ev.prog.fns[z[0]], args, mem, z[1])
    return str_parse(ev, fr, mem, callee, args)


CHAR_CLASS = {"is_ascii_digit": ("0", "9"), "is_ascii_lowercase": ("a", "z"), "is_ascii_uppercase": ("A", "Z")}


@model("char::methods::<impl char>::is_digit")
def ch_is_digit(ev, fr, mem, callee, args):
    c = deep(ev, mem, args[0])
    if args[1] is num(10):
        return tobool(mk("op", "call:core::char::methods::<impl char>::is_ascii_digit", (c,))), mem
    return tobool(mk("op", "is_digit", (c, args[1]))), mem


@model("string::String::push_str")
def s_push_str(ev, fr, mem, callee, args):
    mem = dict(mem)
    ev.store_ref(mem, args[0], strcat([ev.load(mem, args[0]), deep(ev, mem, args[1])]))
    return UNIT, mem


@model("vec::Vec::push", "collections::VecDeque::push_back")
def v_push(ev, fr, mem, callee, args):
    mem = dict(mem)
    v = ev.load(mem, args[0])
    ev.store_ref(mem, args[0], push(v, args[1]))
    return UNIT, mem


def push(v, x):
    if v is BOT:
        return BOT
    return mk("op", "push", (v, x))


@model("bounded_vec_deque::BoundedVecDeque::push_back")
def bv_push(ev, fr, mem, callee, args):
    mem = dict(mem)
    v = ev.load(mem, args[0])
    n = tm.mk("op", "bpush", (v, args[1]))
    ev.store_ref(mem, args[0], n)
    return mk("op", "bpushed_out", (v,)), mem


@model("vec::Vec::clear", "collections::VecDeque::clear", "bounded_vec_deque::BoundedVecDeque::clear")
def v_clear(ev, fr, mem, callee, args):
    mem = dict(mem)
    ev.store_ref(mem, args[0], mk("op", "vec_empty", ()))
    return UNIT, mem


@model("vec::Vec::pop", "collections::VecDeque::pop_back")
def v_pop(ev, fr, mem, callee, args):
    mem = dict(mem)
    v = ev.load(mem, args[0])
    n = tm.length(v)
    h = cmp("gt", n, ZERO, True)
    x = tm.select(v, sub(n, ONE))
    ev.store_ref(mem, args[0], ite(h, tm.subseq(v, ZERO, sub(n, ONE)), v))
    return opt(h, x), mem


@model("vec::Vec::truncate")
def v_truncate(ev, fr, mem, callee, args):
    mem = dict(mem)
    v = ev.load(mem, args[0])
    n = tm.length(v)
    ev.store_ref(mem, args[0], ite(cmp("gt", n, args[1], True), tm.subseq(v, ZERO, args[1]), v))
    return UNIT, mem


@model("vec::Vec::extend_from_slice")
def v_extend_slice(ev, fr, mem, callee, args):
    return extend(ev, mem, args[0], src("cloned", (src("slice", (args[1],)),)))


@model("Extend::extend", "vec::Vec::append")
def v_extend(ev, fr, mem, callee, args):
    x = args[1]
    if x.op == "ref" and not is_iter(ev.load(mem, x)):
        if name_of(callee) == "append":
            r = extend(ev, mem, args[0], src("vals", (ev.load(mem, x),)))
            if r is None:
                return None
            m = r[1]
            ev.store_ref(m, x, mk("op", "vec_empty", ()))
            return UNIT, m
        return extend(ev, mem, args[0], src("cloned", (src("slice", (x,)),)))
    return extend(ev, mem, args[0], source(ev, mem, x))


def extend(ev, mem, ref, s):
    v = ev.load(mem, ref)
    r = consume(ev, mem, s, v, lambda acc, x, m: (push(acc, x), m))
    if r is None:
        return None
    mem = dict(r[1])
    ev.store_ref(mem, ref, r[0])
    return UNIT, mem


@model("vec::Vec::capacity")
def v_capacity(ev, fr, mem, callee, args):
    r = mk("op", "capacity", (ev.load(mem, args[0]),))
    r.ty = "u"
    return r, mem


@model("slice::<impl [T]>::first", "slice::<impl [T]>::last", "slice::<impl [T]>::first_mut", "slice::<impl [T]>::last_mut",
       "collections::VecDeque::front", "collections::VecDeque::back", "collections::VecDeque::front_mut", "collections::VecDeque::back_mut",
       "bounded_vec_deque::BoundedVecDeque::front", "bounded_vec_deque::BoundedVecDeque::back")
def v_first(ev, fr, mem, callee, args):
    v = ev.load(mem, args[0])
    n = tm.length(v)
    i = ZERO if name_of(callee).startswith(("first", "front")) else sub(n, ONE)
    return opt(cmp("gt", n, ZERO, True), subref(ev, args[0], ("ix", i))), mem


@model("slice::<impl [T]>::get", "slice::<impl [T]>::get_mut", "collections::VecDeque::get", "collections::VecDeque::get_mut")
def v_get(ev, fr, mem, callee, args):
    v = ev.load(mem, args[0])
    i = args[1]
    if i.op == "agg":
        return ev.opaque_call("call:get_range", mem, args, ev.rty)
    return opt(cmp("lt", i, tm.length(v), True), subref(ev, args[0], ("ix", i))), mem


@model("slice::<impl [T]>::swap")
def v_swap(ev, fr, mem, callee, args):
    mem = dict(mem)
    v = ev.load(mem, args[0])
    a, b = tm.select(v, args[1]), tm.select(v, args[2])
    ev.store_ref(mem, args[0], tm.store(tm.store(v, args[1], b), args[2], a))
    return UNIT, mem


@model("slice::<impl [T]>::split_at_mut", "slice::<impl [T]>::split_at")
def v_split(ev, fr, mem, callee, args):
    v = ev.load(mem, args[0])
    a = subref(ev, args[0], ("sub", ZERO, args[1]))
    b = subref(ev, args[0], ("sub", args[1], tm.length(v)))
    return mk_agg(("tuple", 2), (a, b)), mem


@model("slice::<impl [T]>::to_vec", "slice::<impl [T]>::into_vec")
def v_to_vec(ev, fr, mem, callee, args):
    return deep(ev, mem, args[0]), mem


@model("slice::<impl [T]>::contains")
def v_contains(ev, fr, mem, callee, args):
    return tobool(mk("op", "seq_contains", (deep(ev, mem, args[0]), deep(ev, mem, args[1])))), mem


@model("slice::<impl [T]>::sort_by", "slice::<impl [T]>::sort_unstable_by", "slice::<impl [T]>::sort", "slice::<impl [T]>::sort_unstable",
       "slice::<impl [T]>::sort_by_key", "slice::<impl [T]>::reverse")
def v_sort(ev, fr, mem, callee, args):
    mem = dict(mem)
    v = ev.load(mem, args[0])
    n = name_of(callee)
    if n == "reverse":
        ev.store_ref(mem, args[0], mk("op", "reversed", (v,)))
        return UNIT, mem
    key = mk("lit", n)
    if len(args) > 1:
        # what the comparator computes for two arbitrary elements
        m, ra = temp(ev, mem, sym("sort:a"))
        m, rb = temp(ev, m, sym("sort:b"))
        r = ev.call_value(m, args[1], [ra, rb] if n.endswith("by") else [ra])
        if r is not None:
            key = r[0]
    ev.store_ref(mem, args[0], mk("op", "sorted", (v, key)))
    return UNIT, mem


@model("slice::<impl [T]>::partition_point")
def v_partition_point(ev, fr, mem, callee, args):
    m, ra = temp(ev, mem, sym("sort:a"))
    r = ev.call_value(m, args[1], [ra])
    if r is None:
        return None
    # at most the length: stated through the number of elements after the point
    v = deep(ev, mem, args[0])
    after = mk("op", "partition_after", (v, r[0]))
    after.ty = "u"
    return sub(tm.length(v), after), mem


@model("slice::<impl [T]>::copy_from_slice", "slice::<impl [T]>::clone_from_slice")
def v_copy(ev, fr, mem, callee, args):
    mem = dict(mem)
    ev.store_ref(mem, args[0], ev.load(mem, args[1]))
    return UNIT, mem


def range_of(i, n):
    """Bounds of a range value over a sequence of length n."""
    if i.op != "agg" or i.a[0][0] not in ("adt", "rangei"):
        return None
    k = i.a[0][-1]
    f = i.a[1]
    if k == RANGE:
        return f[0], f[1]
    if k.endswith("RangeFrom"):
        return f[0], n
    if k.endswith("RangeTo"):
        return ZERO, f[0]
    if k.endswith("RangeFull"):
        return ZERO, n
    if k == "rangei":
        return f[0], add(f[1], ONE)
    if k.endswith("RangeToInclusive"):
        return ZERO, add(f[0], ONE)
    return None


@model("vec::Vec::drain", "vec::Vec::split_off")
def v_drain(ev, fr, mem, callee, args):
    v = ev.load(mem, args[0])
    n = tm.length(v)
    off = name_of(callee) == "split_off"
    r = (args[1], n) if off else range_of(args[1], n)
    if r is None:
        return None
    lo, hi = r
    if hi is n:
        rest = tm.subseq(v, ZERO, lo)
    elif lo is ZERO:
        rest = tm.subseq(v, hi, n)
    else:
        rest = mk("op", "without", (v, lo, hi))
    mem = dict(mem)
    ev.store_ref(mem, args[0], rest)
    x = tm.subseq(v, lo, hi)
    return (x if off else it(src("vals", (x,)))), mem


@model("Index::index", "IndexMut::index_mut")
def m_index(ev, fr, mem, callee, args):
    t = callee.self_ty()
    i = args[1]
    if t is not None and t[0] == "adt" and t[1].endswith(("HashMap", "BTreeMap")):
        return subref(ev, args[0], ("mapval", deep(ev, mem, i), None)), mem
    if i.op == "agg" and i.a[0][0] in ("adt", "rangei"):
        v = ev.load(mem, args[0])
        n = tm.length(v)
        if i.a[0][-1].endswith("RangeFull"):
            return args[0], mem
        r = range_of(i, n)
        if r is None:
            return ev.opaque_call("call:index", mem, args, ev.rty)
        lo, hi = r
        if t is not None and (t[0] == "str" or t[0] == "adt" and t[1].endswith("String")):
            ev.slices += [(v, x) for x in (lo, hi)]
            return strref(tm.subseq(v, lo, hi)), mem
        return subref(ev, args[0], ("sub", lo, hi)), mem
    return subref(ev, args[0], ("ix", i)), mem


# ---- maps
def map_has(m, k):
    if m.op == "case" or k.op == "case":
        return tm.apply("map_has", map_has, (m, k))
    if m is BOT or k is BOT:
        return BOT
    if tm.is_emap(m):
        r = FALSE
        for i, o in enumerate(m.a[1]):
            x = is_v(o, OPTION, 1)
            r = x if i == 0 else ite(is_v(k, m.a[0][1], i), x, r)
        return r
    if m.op == "op" and m.a[0] == "map_empty":
        return FALSE
    if m.op == "op" and m.a[0] == "mapset":
        b, k2, v = m.a[1]
        if k2 is k:
            return TRUE
        return ite(tm.eq_generic(k, k2), TRUE, map_has(b, k))
    return tobool(mk("op", "map_has", (m, k)))


MAPS = ("collections::HashMap::", "collections::BTreeMap::", "collections::hash_map::HashMap::")


def mapm(*names):
    return model(*[p + n for p in MAPS for n in names])


def empty_map(kt, limit=4):
    if kt is not None and kt[0] == "adt":
        from .flow import FIELDLESS
        if kt[1] in FIELDLESS() and len(tm.ADT_AR[kt[1]]) <= limit:
            return tm.emap_empty(kt[1])
    return mk("op", "map_empty", ())


@mapm("new", "with_capacity")
def h_new(ev, fr, mem, callee, args):
    t = callee.targs
    return empty_map(t[0] if t else None), mem


@mapm("get", "get_mut")
def h_get(ev, fr, mem, callee, args):
    k = deep(ev, mem, args[1])
    m = ev.load(mem, args[0])
    return opt(map_has(m, k), subref(ev, args[0], ("mapval", k, None))), mem


@mapm("contains_key")
def h_has(ev, fr, mem, callee, args):
    return map_has(ev.load(mem, args[0]), deep(ev, mem, args[1])), mem


@mapm("insert")
def h_insert(ev, fr, mem, callee, args):
    mem = dict(mem)
    k = deep(ev, mem, args[1])
    m = ev.load(mem, args[0])
    old = opt(map_has(m, k), tm.mapget(m, k))
    ev.store_ref(mem, args[0], tm.mapset(m, k, args[2]))
    return old, mem


@mapm("entry")
def h_entry(ev, fr, mem, callee, args):
    return mk_agg(("entry",), (args[0], deep(ev, mem, args[1]))), mem


@model("collections::hash_map::Entry::or_insert", "collections::hash_map::Entry::or_insert_with", "collections::hash_map::Entry::or_default",
       "collections::btree_map::Entry::or_insert", "collections::btree_map::Entry::or_insert_with", "collections::btree_map::Entry::or_default")
def h_or_insert(ev, fr, mem, callee, args):
    e = args[0]
    if e.op != "agg" or e.a[0] != ("entry",):
        return ev.opaque_call("call:or_insert", mem, args, ev.rty)
    ref, k = e.a[1]
    n = name_of(callee)
    m = ev.load(mem, ref)
    has = map_has(m, k)
    if n == "or_insert":
        d = args[1]
    elif n == "or_default":
        t = callee.targs
        d = default_of(ev, t[1] if len(t) > 1 else None)
    else:
        d, mem = guarded(ev, mem, not_(has), lambda mm: ev.call_value(mm, args[1], []))
    mem = dict(mem)
    m = ev.load(mem, ref)
    cur = tm.mapget(m, k)
    ev.store_ref(mem, ref, tm.mapset(m, k, ite(has, cur, d)))
    return subref(ev, ref, ("mapval", k, None)), mem


@mapm("keys", "values", "iter", "values_mut", "iter_mut", "into_keys", "into_values", "drain")
def h_keys(ev, fr, mem, callee, args):
    n = name_of(callee)
    m = ev.load(mem, args[0]) if args[0].op == "ref" else args[0]
    if n == "values" and tm.is_emap(m) and all(is_v(o, OPTION, 1) is TRUE for o in m.a[1]):
        # all present; in an order that is not told here: only for sums
        mem, r = temp(ev, mem, mk_agg(("array", len(m.a[1])), tuple(payload(o, OPTION, 1) for o in m.a[1])))
        return it(src("slice", (r,))), mem
    return it(src("opaque", (mk("op", "hash_" + n, (deep(ev, mem, args[0]),)),))), mem


@mapm("len")
def h_len(ev, fr, mem, callee, args):
    r = mk("op", "map_len", (deep(ev, mem, args[0]),))
    r.ty = "u"
    return r, mem


# ---- formatting and logging have no effect on values
def fmt_pred(p, c):
    return p.startswith(("fmt::Arguments", "fmt::rt::Argument", "fmt::format", "io::_print", "io::_eprint", "tracing::", "log::",
                         "io::stdio::_print", "tracing_core::"))


def m_fmt(ev, fr, mem, callee, args):
    p = strip(callee.path)
    if p.endswith(("_print", "_eprint")):
        return UNIT, mem
    if p.startswith(("tracing", "log")):
        if "is_enabled" in p or "enabled" in p or "has_been_set" in p:
            return FALSE, mem
        return mk("lit", "log"), mem
    vs = tuple(deep(ev, mem, a) for a in args)
    if p.startswith("fmt::rt::Argument"):
        k = p.split("::")[-1]
        if k == "new_display" and len(vs) == 1:
            t = strip_ref(callee.targs[-1]) if callee.targs else None
            return mk("op", "shown", (vs[0] if is_text(t) else mk("op", "to_string", (vs[0],)),)), mem
        return mk("op", "fmt:" + k, vs), mem
    if p.startswith("fmt::format") and len(vs) == 1:
        return vs[0], mem
    if p.startswith("fmt::Arguments"):
        r = joined(vs)
        if r is not None:
            return r, mem
    return mk("op", "fmt", vs), mem


def is_text(t):
    return t is not None and (t[0] == "str" or t[0] == "adt" and t[1].endswith("::String"))


def joined(vs):
    """The text a format template with plain places makes."""
    if len(vs) == 1 and vs[0].op == "str":
        return vs[0]
    if not vs or vs[0].op != "lit" or vs[0].a[0] != "bytes" or len(vs) > 2:
        return None
    b = vs[0].a[1].encode("latin1").decode("unicode_escape").encode("latin1")
    given = list(vs[1].a[1]) if len(vs) == 2 and vs[1].op == "agg" and vs[1].a[0][0] == "array" else []
    out, i = [], 0
    while i < len(b) and b[i]:
        c = b[i]
        if c < 0x80:
            out.append(tm.string(b[i + 1:i + 1 + c].decode("utf8", "replace")))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(tm.string(b[i + 3:i + 3 + n].decode("utf8", "replace")))
            i += 3 + n
        elif c == 0xc0 and given:
            a = given.pop(0)
            out.append(a.a[1][0] if a.op == "op" and a.a[0] == "shown" else a)
            i += 1
        else:
            return None
    return None if given else strcat(out)


def strcat(parts):
    out = []
    for x in parts:
        for y in x.a[1] if x.op == "op" and x.a[0] == "strcat" else (x,):
            if y.op == "str" and out and out[-1].op == "str":
                out[-1] = tm.string(out[-1].a[0] + y.a[0])
            elif not (y.op == "str" and not y.a[0]):
                out.append(y)
    if not out:
        return tm.string("")
    return out[0] if len(out) == 1 else mk("op", "strcat", tuple(out))


PRED.append((fmt_pred, m_fmt))


# ---- random numbers: a draw is a function of the generator state
def rand_pred(p, c):
    return p.startswith("rand::") or (c.trait or "").startswith("rand")


def m_rand(ev, fr, mem, callee, args):
    vals = [ev.argval(mem, a) for a in args]
    name = "rand:" + name_of(callee)
    mem = dict(mem)
    mi = 0
    tgt = None
    muts = ()
    n = name_of(callee)
    if n in ("gen", "gen_range", "gen_bool", "sample", "next_u32", "next_u64", "gen_ratio", "random", "random_range", "random_bool"):
        muts = (0,)
    elif n in ("shuffle",):
        muts = (0, 1)
    elif n in ("choose", "choose_multiple", "choose_weighted", "choose_mut"):
        muts = (1,)
    if any(v is BOT for v in vals):
        return BOT, mem
    for i in muts:
        a = args[i]
        if a.op in ("ref", "case") or True:
            nv = mk("op", name + "!%d" % i, tuple(vals))
            ev.store_ref(mem, a, nv)
    if n == "shuffle":
        return UNIT, mem
    r = mk("op", name, tuple(vals))
    if n == "gen_range":
        t = callee.targs[1] if len(callee.targs) > 1 else None
        if numeric_ty(t):
            r = ev.typed(r, t)
    elif n in ("gen_bool",):
        r = tobool(r)
    elif ev.rty is not None:
        r = ev.typed(r, ev.rty)
    if n == "choose_multiple":
        return it(src("opaque", (r,))), mem
    return r, mem


PRED.append((rand_pred, m_rand))


@model("time::Month::next", "time::Month::previous")
def m_month(ev, fr, mem, callee, args):
    adt = next((a for a in tm.ADT_AR if a.endswith("time::month::Month") or a == "time::Month"), None)
    if adt is None or len(tm.ADT_AR[adt]) != 12:
        return ev.opaque_call("call:" + callee.key(), mem, args, ev.rty)
    tag = tm.tag_of(args[0], adt)
    d = 1 if strip(callee.path).endswith("next") else -1
    r = num((11 + d) % 12)
    for i in range(11):
        r = ite(tm.cmp("eq", tag, num(i), True), num((i + d) % 12), r)
    return tm.mk_enum(adt, r, ((),) * 12), mem


@model("time::Date::with_hms", "time::Date::midnight", "time::PrimitiveDateTime::assume_offset")
def m_midnight(ev, fr, mem, callee, args):
    a = [ev.load(mem, x) if x.op == "ref" else x for x in args]
    if strip(callee.path).endswith("::midnight"):
        return tm.mk("op", "midnight", (a[0],)), mem
    if strip(callee.path).endswith("::with_hms") and all(x is tm.ZERO for x in a[1:]):
        return ok(tm.mk("op", "midnight", (a[0],))), mem
    if strip(callee.path).endswith("::assume_offset") and a[1].op == "agg" and a[1].a[1] and all(x is tm.ZERO for x in a[1].a[1]):
        return ev.opaque_call("call:time::PrimitiveDateTime::assume_utc", mem, args[:1], ev.rty)
    return ev.opaque_call("call:" + callee.key(), mem, args, ev.rty)


@model("time::OffsetDateTime::year", "time::OffsetDateTime::month", "time::OffsetDateTime::day")
def m_calendar(ev, fr, mem, callee, args):
    i = ("year", "month", "day").index(strip(callee.path).split("::")[-1])
    r, mem = ev.opaque_call("call:time::OffsetDateTime::to_calendar_date", mem, args[:1], None)
    r = proj(r, ("f", ("tuple", 3), 0, i))
    return (ev.typed(r, ev.rty) if ev.rty is not None else r), mem


@model("time::Instant::now", "time::Instant::elapsed", "time::Instant::duration_since", "time::SystemTime::now")
def m_now(ev, fr, mem, callee, args):
    return sym("clock"), mem


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_call(ev, fr, mem, callee, args):
    f = args[0]
    tup = args[1]
    n = None
    if tup.op == "agg" and tup.a[0][0] == "tuple":
        a = list(tup.a[1])
    else:
        return ev.opaque_call("call:fn", mem, args, ev.rty)
    return ev.apply_fn(None, mem, f, a, ev.rty)
