"""What all checks share: loading the program, obligations, reports."""
import importlib, json, os, resource, signal, sys, time, traceback
from . import facts, terms as tm
from .prog import Prog, Anchor
from .flow import Flow, Unsupported
from . import models

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Timeout(Exception):
    pass


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = []            # (rule, subject, ok, detail, where)
        self.floors = {}
        self.functions = set()
        self.loops = 0
        self.blocks = 0
        self.calls = 0
        self.opaque = 0
        self.notes = []
        self.assumptions = []
        self.explanation = ""
        self.prog = None
        self.info = {}

    # -------------------------------------------------------- program ------
    def load(self, *specs):
        f, self.info = facts.extract(specs)
        self.prog = Prog(f)
        for c, e in self.info["spec_errors"].items():
            self.fail("anchor", "reference definitions %s" % c,
                      "do not fit the public interface of the analysed crate any more: " + first_error(e))
        self.info.pop("spec_errors")
        return self.prog

    # ---------------------------------------------------- obligations ------
    def oblige(self, rule, subject, ok, detail="", where=""):
        if not ok and os.environ.get("VF_DEBUG"):
            print("FAIL", rule, subject, detail, where)
        self.obl.append((rule, subject, bool(ok), detail, where))
        return ok

    def ok(self, rule, subject, detail="", where=""):
        self.oblige(rule, subject, True, detail, where)

    def fail(self, rule, subject, detail="", where=""):
        self.oblige(rule, subject, False, detail, where)

    def floor(self, rule, n):
        self.floors[rule] = n

    # ------------------------------------------------------ summaries ------
    def flow(self, **kw):
        ev = Flow(self.prog)
        for k, v in kw.items():
            setattr(ev, k, v)
        return ev

    def account(self, ev):
        self.functions |= ev.stats["bodies"]
        self.loops += ev.stats["loops"]
        self.blocks += ev.stats["blocks"]
        self.calls += ev.stats["calls"]
        self.opaque += ev.stats["opaque_calls"]

    def summary(self, fn, limit=120, args=None, env=None, setup=None, awaited=False, **kw):
        """(ret, mem) of fn over symbolic arguments; None when it diverges."""
        ev = self.flow(**kw)
        a, mem = sym_args(ev, fn, args)
        if setup:
            setup(ev, a, mem)
        with alarm(limit):
            r = ev.run(fn, a, mem, env or {})
            if awaited and r is not None:
                r = models.drive(ev, r[1], r[0])
        self.account(ev)
        self.last = ev
        return r

    def where(self, fn):
        return fn.span if fn is not None else ""


def sym_args(ev, fn, given=None):
    args, mem = [], {}
    for k in range(fn.argc):
        t = fn.locals[k + 1]
        n = "arg%d" % k
        if given and k in given and given[k] is not None:
            v = given[k]
            if t[0] == "ref" and v.op != "ref":
                root = ("A", k)
                mem[root] = v
                v = tm.mk("ref", root, ())
            args.append(v)
            continue
        if t[0] == "ref":
            root = ("A", k)
            mem[root] = ev.typed(tm.sym(n), t[1]) if scalar(t[1]) else tm.sym(n)
            args.append(tm.mk("ref", root, ()))
        else:
            args.append(ev.typed(tm.sym(n), t))
    return args, mem


def scalar(t):
    return t[0] in ("prim", "int", "uint", "float", "bool")


class alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(a, b):
            raise Timeout("no summary within %d s" % self.s)
        signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)


def first_error(e):
    ls = [l for l in e.splitlines() if l.startswith("error") or l.strip().startswith("-->")]
    return " ".join(ls[:2]).strip()


# ------------------------------------------------------------ reporting ----
def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith(("#", "fixed:")):
                out.append(json.loads(l))
    return out


def key_of(o):
    return "%s | %s" % (o[0], o[1])


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ck = Check(pid, tier)
    sys.setrecursionlimit(200000)
    m = importlib.import_module("vf.props." + pid.lower())
    try:
        m.run(ck)
    except facts.SystemExit2 as e:
        # the tree does not compile: nothing to decide
        print("ERROR", e)
        return 2
    except Anchor as e:
        ck.fail("anchor", str(e), "an entry point the property is about was not found")
    except (Timeout, Unsupported, tm.Limit) as e:
        ck.fail("undecided", "%s" % type(e).__name__, str(e))
    except Exception as e:
        tb = traceback.format_exc()
        ck.fail("undecided", type(e).__name__, tb[-1500:])
        if os.environ.get("VF_DEBUG"):
            print(tb)
    for rule, n in ck.floors.items():
        c = sum(1 for o in ck.obl if o[0] == rule)
        if c < n:
            ck.fail("floor", rule, "%d instances analysed, %d expected at least" % (c, n))
    kn = {k["key"]: k for k in known() if k["property"] == pid}
    bad = [o for o in ck.obl if not o[2]]
    new = [o for o in bad if key_of(o) not in kn]
    hit = [o for o in bad if key_of(o) in kn]
    rules = {}
    for o in ck.obl:
        r = rules.setdefault(o[0], {"instances": 0, "discharged": 0})
        r["instances"] += 1
        r["discharged"] += o[2]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": ck.explanation or (m.__doc__ or "").strip(),
            "obligations": len(ck.obl), "discharged": sum(o[2] for o in ck.obl),
            "rules": rules,
            "functions_summarised": len(ck.functions),
            "functions": sorted(ck.functions)[:200],
            "basic_blocks": ck.blocks, "loops_summarised": ck.loops, "call_sites": ck.calls,
            "uninterpreted_calls": ck.opaque,
            "samples": [{"rule": o[0], "subject": o[1], "ok": o[2], "detail": o[3][:300], "where": o[4]} for o in ck.obl[:40]],
            "analysed": {k: v for k, v in ck.info.items()},
        },
        "assumptions": ck.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if ck.notes:
        ev["coverage"]["notes"] = ck.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", pid + ".json")
    with open(ep + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(ep + ".tmp", ep)
    for o in hit:
        print("KNOWN-FINDING: property=%s %s -- %s" % (pid, key_of(o), kn[key_of(o)]["what"]))
    print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (
        pid, len(ck.obl), sum(o[2] for o in ck.obl), len(ck.functions), time.time() - t0))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for o in new:
                f.write("rule: %s\nconstruct: %s\nwhere: %s\n%s\n\n" % (o[0], o[1], o[4], o[3]))
        for o in new[:12]:
            print("  [%s] %s  %s\n      %s" % (o[0], o[1], o[4], o[3][:400].replace("\n", "\n      ")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
