"""Obligations, verdicts, evidence and known findings shared by every check."""
import json, os, sys, time, traceback
from . import num as N
from .num import Num
from .program import Program, VERIF
from .interp import Interp, Undecided, UB, CppThrow, Obj, Cell, Violated

INF = N.INF


class AnalysisBroken(Exception):
    pass


def same(a, b):
    """True: provably the same value; False: provably different; None: cannot tell."""
    if a.__class__ is Num or b.__class__ is Num:
        if a.__class__ is not Num:
            if isinstance(a, (int, float)) and not isinstance(a, bool):
                a = N.const(float(a))
            else:
                return False
        if b.__class__ is not Num:
            if isinstance(b, (int, float)) and not isinstance(b, bool):
                b = N.const(float(b))
            else:
                return False
        if a.only_nan() and b.only_nan():
            return True
        if a.only_nan() and not b.nan or b.only_nan() and not a.nan:
            return False
        if a.is_point() and b.is_point():
            return a.lo == b.lo
        if a.tag == b.tag:
            return True
        if a.nan or b.nan:
            if a.only_nan() or b.only_nan():
                return None
            if not (a.nan and b.nan) and (a.hi < b.lo or b.hi < a.lo):
                return False
            return None
        if a.hi < b.lo or b.hi < a.lo:
            return False
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            s = same(x, y)
            if s is False:
                return False
            if s is None:
                r = None
        return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    return a == b


def near(a, b, tol=1e-9):
    """Like same() for numbers, but constants that differ by rounding are the same."""
    s = same(a, b)
    if s is False and (a.__class__ is Num or b.__class__ is Num):
        a = a if a.__class__ is Num else N.const(float(a))
        b = b if b.__class__ is Num else N.const(float(b))
        if a.empty() or b.empty():
            return s
        if a.lo in (INF, -INF) or b.lo in (INF, -INF):
            return s
        gap = max(a.lo - b.hi, b.lo - a.hi)
        if gap <= tol * max(1.0, abs(b.lo), abs(b.hi)):
            return None if not (a.is_point() and b.is_point()) else True
    return s


def show(v):
    if isinstance(v, (list, tuple)):
        return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, str):
        return repr("".join("<x%d>" % (ord(c) - 0xE000) if 0xE000 <= ord(c) <= 0xF8FF else c for c in v))
    return repr(v)


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.p = Program()
        self.I = Interp(self.p)
        self.obligations = {}      # rule -> [total, held, undecided, violated]
        self.paths = 0
        self.viol = []             # dicts
        self.unsure = []
        self.samples = []
        self.rules = {}
        self.keys = set()
        self.constructs = set()

    def rule(self, name, text):
        self.rules[name] = text

    # -------------------------------------------------------------- verdicts
    def count(self, rule, verdict):
        o = self.obligations.setdefault(rule, {"obligations": 0, "held": 0, "undecided": 0, "violated": 0})
        o["obligations"] += 1
        o[verdict] += 1

    def violation(self, rule, construct, case, msg, path=(), where=None):
        self.viol.append({"rule": rule, "construct": construct, "case": case, "message": msg, "path": list(path), "where": where})

    def held(self, rule, construct=None):
        self.count(rule, "held")
        if construct:
            self.constructs.add(construct)

    def fact(self, rule, construct, case, ok, msg="", where=None):
        """A structural obligation decided directly."""
        self.constructs.add(construct)
        if ok is None:
            self.count(rule, "undecided")
            self.unsure.append("%s %s %s: %s" % (rule, construct, case, msg))
        elif ok:
            self.count(rule, "held")
        else:
            self.count(rule, "violated")
            self.violation(rule, construct, case, msg, where=where)
        return ok

    def loc(self, cls, name=None, nargs=None):
        """file:line of a member (for reports)."""
        q = cls if cls.startswith("fuzzylite::") or cls in self.p.cls else "fuzzylite::" + cls
        try:
            if name:
                for c, m in self.p.methods(q, name, nargs):
                    f = self.p.fn.get(m["u"])
                    if f:
                        return "%s:%d" % (f["file"], f["l"])
            c = self.p.cls.get(q)
            if c:
                return "%s:%d" % (c.file, c.line)
        except Exception:
            pass
        return "?"

    # -------------------------------------------------------------- obligations decided by abstract interpretation
    def obl(self, rule, construct, case, scenario, limit=64, expect_throw=False, where=None):
        r = self._obl(rule, construct, case, scenario, limit, expect_throw, where)
        if self.twin and r is True:
            label, setup, every = self.twin
            self.twins += 1
            if self.twins % every == 0:
                def twin(I):
                    setup(I)
                    return scenario(I)
                r = self._obl(rule, construct, "%s; %s" % (case, label), twin, limit, expect_throw, where)
        return r

    twin = None     # (label, setup, n): every n-th obligation is also decided after setup(I), which must make no difference
    twins = 0

    def debugging(self, every):
        self.twin = ("debugging on", lambda I: I.scall("fuzzylite::fuzzylite::setDebugging", True), every)

    def _obl(self, rule, construct, case, scenario, limit=64, expect_throw=False, where=None):
        """Interpret scenario(I) on every trace; it raises Violated where the property is contradicted."""
        self.constructs.add(construct)
        I = self.I
        bad, inexact_bad, good, und = [], [], 0, []
        n = 0
        for kind, v in I.paths(scenario, limit):
            n += 1
            msg = None
            if kind == "ok":
                if v is None or v is True:
                    good += 1
                elif v is False:
                    und.append("not decided")
                else:
                    und.append(str(v))
                continue
            if kind == "violated":
                msg = str(v)
            elif kind == "throw":
                msg = "unexpected exception: %s" % self.exc_text(v)
            elif kind == "ub":
                msg = "undefined behaviour: %s" % v
            else:
                und.append("%s" % (v.args[0] if v.args else v))
                continue
            rec = (msg, list(I.choices), getattr(v, "where", None))
            if I.exact:
                bad.append(rec)
            else:
                inexact_bad.append(rec)
        self.paths += n
        if not bad and inexact_bad and not good and not und:
            bad = inexact_bad
        if bad:
            self.count(rule, "violated")
            m, ch, w = bad[0]
            self.violation(rule, construct, case, m, ["%s -> %s" % (a, "yes" if c == 0 else "no") for a, c in ch], w or where)
            return False
        if und or inexact_bad:
            self.count(rule, "undecided")
            self.unsure.append("%s %s %s: %s" % (rule, construct, case, (und or [x[0] for x in inexact_bad])[0]))
            return None
        if n == 0:
            self.count(rule, "undecided")
            return None
        self.count(rule, "held")
        return True

    def exc_text(self, e):
        o = e.obj
        try:
            if isinstance(o, Obj):
                for (c, n), v in o.f.items():
                    if n == "_what":
                        return "%s: %s" % (o.cls, show(v.v)[:300])
        except Exception:
            pass
        return repr(o)

    def interval(self, rule, construct, case, scenario, lo, hi, where=None, nan=False, limit=64):
        """The abstract result of scenario must be compatible with the specified interval [lo, hi]."""
        self.constructs.add(construct)
        I = self.I
        n, und = 0, []
        exact_bad, any_ok, msgs = None, False, []
        proved = True
        tol = 1e-9 * max(1.0, min(abs(lo), 1e300) if lo > -INF else 0, min(abs(hi), 1e300) if hi < INF else 0)
        hull_nan = True
        ULO, UHI = INF, -INF
        for kind, v in I.paths(scenario, limit):
            n += 1
            if kind == "ok":
                if v.__class__ is not Num:
                    und.append("not a number: %r" % (v,))
                    continue
                bad = False
                if nan:
                    bad = not v.nan
                    ok = v.only_nan()
                else:
                    bad = v.only_nan() or v.hi < lo - tol or v.lo > hi + tol
                    ok = not v.nan and v.lo >= lo - tol and v.hi <= hi + tol
                ULO, UHI = min(ULO, v.lo), max(UHI, v.hi)
                if bad:
                    m = "result %r, documented %s" % (v, "nan" if nan else "[%r, %r]" % (lo, hi) if lo != hi else repr(lo))
                    if I.exact and exact_bad is None:
                        exact_bad = (m, list(I.choices), None)
                    msgs.append((m, list(I.choices), None))
                    proved = False
                else:
                    any_ok = True
                    if not ok:
                        proved = False
            elif kind == "undecided":
                und.append(str(v.args[0] if v.args else v))
                proved = False
            else:
                m = "undefined behaviour: %s" % v if kind == "ub" else "unexpected exception: %s" % self.exc_text(v) if kind == "throw" else str(v)
                if I.exact and exact_bad is None:
                    exact_bad = (m, list(I.choices), getattr(v, "where", None))
                msgs.append((m, list(I.choices), getattr(v, "where", None)))
                proved = False
        self.paths += n
        if exact_bad is None and msgs and not any_ok and not und:
            exact_bad = msgs[0]
        if exact_bad:
            self.count(rule, "violated")
            m, ch, w = exact_bad
            self.violation(rule, construct, case, m, ["%s -> %s" % (a, "yes" if c == 0 else "no") for a, c in ch], w or where)
            return False
        if und and not any_ok:
            self.count(rule, "undecided")
            self.unsure.append("%s %s %s: %s" % (rule, construct, case, und[0]))
            return None
        self.count(rule, "held")
        if proved:
            o = self.obligations[rule]
            o["enclosed"] = o.get("enclosed", 0) + 1
        return True

    # -------------------------------------------------------------- end of a run
    def known(self):
        out = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for l in open(path):
                l = l.strip()
                if l.startswith("known: "):
                    head, _, text = l[7:].partition(" :: ")
                    d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                    if d.get("property") == self.pid:
                        out.append((d.get("key", ""), text))
        return out

    @staticmethod
    def key(v):
        return ("%s|%s|%s" % (v["rule"], v["construct"], v["case"])).replace(" ", "_")

    def finish(self, explanation):
        known = self.known()
        new, old = [], []
        for v in self.viol:
            k = self.key(v)
            hit = [t for kk, t in known if kk == k]
            (old if hit else new).append((v, hit[0] if hit else None))
        tot = {"obligations": 0, "held": 0, "undecided": 0, "violated": 0}
        for o in self.obligations.values():
            for k in tot:
                tot[k] += o[k]
        fns = sorted({self.p.fn[u]["q"] for u in self.I.visited if u in self.p.fn})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": explanation,
                "rules": [{"rule": r, "text": self.rules.get(r, ""), **self.obligations[r]} for r in self.obligations],
                "obligations": tot["obligations"], "held": tot["held"], "undecided": tot["undecided"], "violated": tot["violated"],
                "traces": self.paths,
                "functions_analysed": len(fns), "functions": fns[:400],
                "constructs": sorted(self.constructs)[:400],
                "undecided_sample": self.unsure[:20],
                "translation_units": len(self.p.units),
            },
            "known_findings": [self.key(v) for v, _ in old],
            "violations": [{k: v[k] for k in ("rule", "construct", "case", "message", "where")} for v, _ in new][:50],
            "wall_s": round(time.time() - self.t0, 3),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for v, t in old:
            if t not in seen:
                seen.add(t)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        print("%s: %d obligations, %d held, %d undecided, %d violated; %d traces, %d functions, %.1f s" % (
            self.pid, tot["obligations"], tot["held"], tot["undecided"], tot["violated"], self.paths, len(fns), time.time() - self.t0))
        if new:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".txt")
            with open(rp, "w") as f:
                for v, _ in new:
                    f.write("property %s\nrule: %s\n  %s\nconstruct: %s\ncase: %s\nviolation: %s\nwhere: %s\nkey: %s\n" % (
                        self.pid, v["rule"], self.rules.get(v["rule"], ""), v["construct"], v["case"], v["message"], v["where"], self.key(v)))
                    for s in v["path"]:
                        f.write("  path: %s\n" % s)
                    f.write("\n")
            for v, _ in new[:10]:
                print("  [%s] %s (%s) %s: %s" % (v["rule"], v["construct"], v["where"], v["case"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if tot["obligations"] == 0 or tot["held"] + tot["violated"] == 0:
            print("%s: nothing could be decided: %s" % (self.pid, self.unsure[:3]))
            return 2
        return 0
