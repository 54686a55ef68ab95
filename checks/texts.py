"""C24 (FLL), C25 (FIS), C26 (FCL): export, import and malformed texts; C21 builds on the malformed ones."""
import itertools
from flai import num as N
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UB, Cell
from .fuzzy import expect_throw, opaque, FLN
from .terms import TERMS
from .objects import Values, describe, demand_same, short, NAMES, as_arg, query
from .params import text, plain, getter
from .copies import outs, ins, blocks_of, no_leak

# what no text can tell: values, and what evaluation leaves behind
IGN = ("getValue", "getPreviousValue", "variables", "getActivationDegree", "isTriggered")
ARITY = {"Discrete": 4, "Linear": 3, "Constant": 1, "Function": 0}
ARITY.update({c: len(t[0]) for c, t in TERMS.items()})


class T:
    def __init__(self, cls, name="a", args=None, h=None):
        self.cls, self.name, self.args, self.h = cls, name, args, h


class V:
    def __init__(self, name, terms=None, **kw):
        self.name, self.terms = name, terms
        self.desc, self.enabled, self.lo, self.hi, self.lockrange = "", True, None, None, False
        self.aggregation, self.defuzz, self.default, self.lockprev = "Maximum", ("Centroid", None), None, False
        self.__dict__.update(kw)


class B:
    def __init__(self, name="", rules=(), **kw):
        self.name, self.rules = name, rules
        self.desc, self.enabled, self.conj, self.disj, self.impl, self.act = "", True, "Minimum", "Maximum", "AlgebraicProduct", ("General", ())
        self.__dict__.update(kw)


class E:
    def __init__(self, ins_, outs_, blocks, name="engine", desc=""):
        self.ins, self.outs, self.blocks, self.name, self.desc = ins_, outs_, blocks, name, desc


def make_term(I, t, nums, engine):
    o = I.make(t.cls)
    I.call(o, "setName", t.name)
    args = t.args
    if args is None:
        args = [nums.num() for _ in range(ARITY[t.cls])]
    if t.cls == "Discrete":
        ps = [I.std.Pair(Cell(args[i]), Cell(args[i + 1])) for i in range(0, len(args), 2)]
        I.call(o, "setXY", I.std.Vec(ps, "std::pair<double, double>"))
    elif t.cls == "Linear":
        I.call(o, "setCoefficients", I.std.Vec([Cell(a) for a in args], "double"))
        I.call(o, "setEngine", engine)
    elif t.cls == "Function":
        I.call(o, "load", args or "in1 + 2 * in2 ^ 3", engine)
    elif t.cls == "Constant":
        I.call(o, "setValue", args[0])
    else:
        for a, v in zip(TERMS[t.cls][0], args):
            I.call(o, "set" + a[0].upper() + a[1:], v)
    if t.h is not None:
        I.call(o, "setHeight", nums.num() if t.h == "some" else t.h)
    return o


def make_engine(I, s, seed=3000):
    """The engine of a specification, built through the public interface; unspecified numbers are opaque."""
    nums = Values(I, seed)
    e = I.make("Engine")
    I.call(e, "setName", s.name)
    I.call(e, "setDescription", s.desc)
    for kind, vs in (("Input", s.ins), ("Output", s.outs)):
        for j, x in enumerate(vs):
            v = I.make(kind + "Variable")
            I.call(v, "setName", x.name)
            I.call(v, "setDescription", x.desc)
            I.call(v, "setEnabled", x.enabled)
            I.call(v, "setRange", opaque("lo", kind, j, seed, lo=-3, hi=-2) if x.lo is None else N.const(x.lo), opaque("hi", kind, j, seed, lo=2, hi=3) if x.hi is None else N.const(x.hi))
            I.call(v, "setLockValueInRange", x.lockrange)
            if kind == "Output":
                I.call(v, "setAggregation", I.make(x.aggregation) if x.aggregation else None)
                d = None
                if x.defuzz:
                    d = I.make(x.defuzz[0])
                    if x.defuzz[1] is not None:
                        I.call(d, "setType" if x.defuzz[0].startswith("Weighted") else "setResolution", x.defuzz[1])
                I.call(v, "setDefuzzifier", d)
                I.call(v, "setDefaultValue", N.NAN if x.default is None else nums.num() if x.default == "some" else N.const(x.default))
                I.call(v, "setLockPreviousValue", x.lockprev)
            for t in ([T("Triangle", "a"), T("Gaussian", "b")] if kind == "Input" else [T("Ramp", "x"), T("Discrete", "y")]) if x.terms is None else x.terms:
                I.call(v, "addTerm", make_term(I, t, nums, e))
            I.call(e, "add" + kind + "Variable", v)
    for x in s.blocks:
        b = I.make("RuleBlock")
        I.call(b, "setName", x.name)
        I.call(b, "setDescription", x.desc)
        I.call(b, "setEnabled", x.enabled)
        for slot, n in (("Conjunction", x.conj), ("Disjunction", x.disj), ("Implication", x.impl)):
            I.call(b, "set" + slot, I.make(n) if n else None)
        if x.act:
            a = I.make(x.act[0])
            for setter, v in x.act[1]:
                I.call(a, setter, nums.num() if v == "some" else v)
            I.call(b, "setActivation", a)
        for r in x.rules:
            rule = I.make("Rule")
            I.call(rule, "setText", r)
            I.call(rule, "load", e)
            I.call(b, "addRule", rule)
        I.call(e, "addRuleBlock", b)
    return e


def exported(I, x, e):
    """The text of a component by the overload for the nearest of its classes."""
    if e.__class__ is Obj:
        ms = [m for _, m in I.p.methods(x.dyn, "toString", 1)]
        for q in I.p.lin(e.dyn):
            for m in ms:
                if m["pt"][0]["t"] == "const %s *" % q:
                    r = I.val(I.invoke(m["u"], x, [e], m["virt"]))
                    return r.v if r.__class__ is I.std.SStr else r
    if isinstance(e, I.std.Vec):
        for _, m in I.p.methods(x.dyn, "toString", 1):
            if "vector" in m["pt"][0]["t"] and e.et.replace(" ", "") in m["pt"][0]["t"].replace(" ", ""):
                return I.val(I.invoke(m["u"], x, [e], m["virt"]))
        raise Undecided("no toString for a list of " + e.et)
    return I.get(x, "toString", e)


def imported(I, x, t):
    return I.val(I.call(x, "fromString", t))


R1 = ("if in1 is very a and in2 is not seldom b then out1 is x and out2 is somewhat y", "if in1 is b or in2 is any then out2 is x with 0.5")


def ab(n=2):
    return [V("in%d" % (j + 1)) for j in range(n)]


def xy(n=2):
    return [V("out%d" % (j + 1)) for j in range(n)]


def specs(fmt):
    """(case, specification) of the engines the format can express, one attribute after the other away from the others' values."""
    out = []
    fll, fis, fcl = fmt == "FLL", fmt == "FIS", fmt == "FCL"

    def add(case, s):
        out.append((case, s))

    for n in (0, 1, 2, 3):
        for m in (0, 1, 2):
            for k in ((1,) if fis else (0, 1, 3)):
                rules = () if not n or not m else ("if in1 is a then out1 is y",) if n == 1 or m == 1 else R1
                add("%d inputs, %d outputs, %d blocks" % (n, m, k), E(ab(n), xy(m), [B("" if fis else "block %d" % j, rules) for j in range(k)]))
    add("no terms", E([V("in1", [])], [V("out1", [])], [B("" if fis else "block")]))
    for c in sorted(ARITY):
        hs = [None, "some"] if (fll or fcl) and c in TERMS or (fll or fcl) and c == "Discrete" else [None]
        for h in hs:
            t = c + (" with a height" if h else "")
            add(t + " among the inputs", E([V("in1", [T("Ramp", "p"), T(c, "q", "sin(x) + 2 * x") if c == "Function" else T(c, "q", h=h), T("Ramp", "r")]), V("in2")], xy(1), [B()]))
            add(t + " among the outputs", E(ab(2), [V("out1", [T(c, "q", h=h)]), V("out2", [T(c, "q", h=h), T(c, "r", h=h)])], [B()]))
    for args in ([N.const(-INF), N.const(0.5), N.const(1.5)], [N.const(0.25), N.const(1.5), N.const(INF)]):
        add("infinite parameters %s" % args[0].lo, E([V("in1", [T("Triangle", "a", args)])], xy(1), [B()]))
    for d in (INF, -INF):
        add("Binary %s" % d, E([V("in1", [T("Binary", "a", [opaque("start"), N.const(d)])])], xy(1), [B()]))
    for f in FORMULAS:
        add("formula " + f, E(ab(2), [V("out1", [T("Function", "f", f), T("Ramp", "x")])], [B()]))
    add("constant nan and inf", E([V("in1", [T("Constant", "n", [N.NAN]), T("Constant", "i", [N.const(INF)])])], [V("out1", [T("Constant", "m", [N.const(-INF)])])], [B()]))
    for nm in ("v", "_v", "v_1", "V2.x", "input", "Range", "term", "rule", "true", "MF1", "NC"):
        add("names " + nm, E([V(nm, [T("Ramp", nm)])], [V("o", [T("Ramp", "x"), T("Ramp", nm)])], [B("" if fis else nm, ("if %s is %s then o is %s" % (nm, nm, nm),))], name=nm))
    add("engine name of several words", E(ab(1), xy(1), [B()], name="my engine no 1"))
    if not fis:
        add("block name of several words", E(ab(1), xy(1), [B("the first block")]))
    for lo, hi in ((-INF, INF), (0.0, INF), (-INF, 0.0), (-1.5, -0.25), (2.0, 1.0), (1.0, 1.0), (INF, -INF)):
        add("range %s %s" % (lo, hi), E([V("in1", lo=lo, hi=hi)], [V("out1", lo=lo, hi=hi)], [B()]))
    if fll:
        for lo, hi in ((float("nan"), 1.0), (0.0, float("nan")), (float("nan"), INF)):
            add("range %s %s" % (lo, hi), E([V("in1", lo=lo, hi=hi)], [V("out1", lo=lo, hi=hi)], [B()]))
        add("range nan", E([V("in1", lo=float("nan"), hi=float("nan"))], [V("out1", lo=float("nan"), hi=float("nan"))], [B()]))
        for en, lr in itertools.product((True, False), repeat=2):
            add("input enabled %s, lock-range %s" % (en, lr), E([V("in1", enabled=en, lockrange=lr), V("in2", enabled=not en, lockrange=lr)], xy(1), [B()]))
        for en, lr, lp in itertools.product((True, False), repeat=3):
            add("output enabled %s, lock-range %s, lock-previous %s" % (en, lr, lp), E(ab(1), [V("out1", enabled=en, lockrange=lr, lockprev=lp), V("out2", enabled=lr, lockrange=lp, lockprev=en)], [B()]))
        for en in (True, False):
            add("block enabled %s" % en, E(ab(1), xy(1), [B("b1", enabled=en), B("b2", enabled=not en)]))
        for d in ("a text", "with: colons: in it", "and 'quotes' \"here\"", "key: value", "true", "none"):
            add("description " + d, E([V("in1", desc=d), V("in2")], [V("out1", desc=d)], [B("b", desc=d), B("c")], desc=d))
        add("descriptions without that of the engine", E([V("in1", desc="d1"), V("in2", desc="d2")], [V("out1", desc="d3"), V("out2")], [B("b", desc="d4")]))
        add("no name", E(ab(1), xy(1), [B("")], name=""))
        for d in NAMES["Defuzzifier"].split():
            for v in ((0, 1, 2) if d.startswith("Weighted") else (1, 7, 100, 250, 1000, 5000)):
                add("%s %d" % (d, v), E(ab(1), [V("out1", defuzz=(d, v)), V("out2", defuzz=(d, None))], [B()]))
        for a, ss in (("General", ()), ("Proportional", ()), ("First", (("setNumberOfRules", 3), ("setThreshold", "some"))), ("Last", (("setNumberOfRules", 4), ("setThreshold", "some"))),
                      ("Highest", (("setNumberOfRules", 5),)), ("Lowest", (("setNumberOfRules", 6),)), ("First", ()), ("Last", ()), ("Highest", ()), ("Lowest", ()), ("Threshold", ())):
            add("activation %s%s" % (a, " with settings" if ss else ""), E(ab(1), xy(1), [B("b", act=(a, ss)), B("c", act=("General", ()))]))
        for k in range(6):
            add("activation Threshold %d" % k, E(ab(1), xy(1), [B("b", act=("Threshold", (("setComparison", k), ("setValue", "some"))))]))
        rules = ["if in1 is a then out1 is x", "if in1 is not very b and (in2 is a or in1 is any) then out1 is extremely x and out2 is y with 0.25",
                 "if (in1 is a and in2 is a) or (in1 is b and in2 is b) then out2 is seldom x", "if in1 is somewhat a then out1 is x with 1.0"]
        for n in range(1, 5):
            add("%d rules" % n, E(ab(2), xy(2), [B("b", rules[:n]), B("c", rules[n:])]))
    if fll or fcl:
        for sl in ("conj", "disj", "impl"):
            for n in NAMES["SNorm" if sl == "disj" else "TNorm"].split():
                add("%s %s" % (sl, n), E(ab(2), xy(2), [B("b", R1, **{sl: n}), B("c")]))
            add("no " + sl, E(ab(2), xy(2), [B("b", **{sl: None}), B("c")]))
        for n in NAMES["SNorm"].split():
            add("aggregation " + n, E(ab(2), [V("out1", aggregation=n), V("out2")], [B()]))
        add("no aggregation", E(ab(2), [V("out1", aggregation=None), V("out2")], [B()]))
        add("no defuzzifier", E(ab(2), [V("out1", defuzz=None), V("out2")], [B()]))
        for d, lp in itertools.product((None, "some", -2.5, 0.0, INF, -INF), (True, False)):
            add("default %s, lock-previous %s" % (d, lp), E(ab(1), [V("out1", default=d, lockprev=lp), V("out2")], [B()]))
    if fcl:
        for d in NAMES["Defuzzifier"].split():
            add("defuzzifier " + d, E(ab(2), [V("out1", defuzz=(d, None)), V("out2")], [B()]))
    if fis:
        for sl in ("conj", "disj", "impl"):
            for n in NAMES["SNorm" if sl == "disj" else "TNorm"].split():
                add("%s %s" % (sl, n), E(ab(2), xy(2), [B("", R1, **{sl: n})]))
        for n in NAMES["SNorm"].split():
            add("aggregation " + n, E(ab(2), [V("out1", aggregation=n), V("out2", aggregation=n)], [B()]))
        for d in NAMES["Defuzzifier"].split():
            add("defuzzifier " + d, E(ab(2), [V("out1", defuzz=(d, None)), V("out2", defuzz=(d, None))], [B()]))
        hs = [""] + [n + h for n in ("", "not ") for h in ("very ", "extremely ", "seldom ", "somewhat ", "very very ")] + ["not ", "any", "not any"]
        for h in hs:
            f = (lambda v, t: "%s is %s" % (v, h if "any" in h else h + t))
            rs = ["if %s then %s" % (f("in2", t), "out1 is " + u) for t in "ab" for u in "xy"]
            if "any" in h:
                rs = ["if %s then out1 is %s" % (f("in%d" % v, ""), u) for v in (1, 2, 3) for u in "xy"]
                add("rules with %r" % h, E(ab(3), xy(2), [B("", rs)]))
                continue
            rs += ["if %s and %s then %s" % (f("in1", "b"), "in3 is a", "out2 is y"), "if in1 is a then out1 is x and " + f("out2", "y")]
            add("rules with %r" % h.strip(), E(ab(3), xy(2), [B("", rs)]))
        for n in (1, 2, 3):
            for vs in itertools.combinations((1, 2, 3), n):
                for o in ((1,), (2,), (1, 2)):
                    for c in ("and", "or"):
                        r = "if %s then %s" % ((" %s " % c).join("in%d is %s" % (v, "ab"[v % 2]) for v in vs), " and ".join("out%d is %s" % (v, "xy"[v % 2]) for v in o))
                        add("a rule of the inputs %s by %s for the outputs %s" % (vs, c, o), E(ab(3), xy(2), [B("", (r, "if in1 is a then out1 is y"))]))
        for w in ("0.5", "0.125", "0.0", "1.0", "0.001"):
            add("a rule weight of " + w, E(ab(2), xy(2), [B("", (R1[0], "if in1 is b then out2 is x with " + w))]))
        for n in (5, 12):
            add("%d terms" % n, E([V("in1", [T("Ramp", "t%d" % k) for k in range(n)])], [V("out1", [T("Ramp", "u%d" % k) for k in range(n)])],
                                  [B("", ["if in1 is %st%d then out1 is u%d" % ("very " if k % 2 else "", k, n - 1 - k) for k in range(n)])]))
    return out


FORMULAS = ("in1", "(in1 + in2) * 2", "sin(in1) / max(in1, in2)", "in1 ^ 2 - ~in2", "in1 % 2 + gt(in1,in2) * (x - 3)", "in1 and !(in2 or x)", "2", "pow(x,2)/atan2( in1 , in2 )")


def again(I, chk, fmt, x, imp, spec, seed):
    e = make_engine(I, spec, seed)
    t = exported(I, x, e)
    e2 = imported(I, imp, t)
    if e2 is None or e2.dyn != FLN + "Engine":
        raise Violated("the import gives no engine")
    r = demand_same(describe(I, e, ignore=IGN + extra(fmt)), describe(I, e2, ignore=IGN + extra(fmt)), "imported from its own %s text, the engine" % fmt)
    t2 = exported(I, x, e2)
    if t2 != t:
        a, b = t.split("\n"), t2.split("\n")
        k = next((k for k, (m, n) in enumerate(zip(a, b)) if m != n), min(len(a), len(b)))
        raise Violated("exported again after the import, line %d is %r, before %r" % (k + 1, plain(b[k]) if k < len(b) else "missing", plain(a[k]) if k < len(a) else "missing"))
    return r


def extra(fmt):
    return ("getText",) if fmt == "FIS" else ()


# --------------------------------------------------------------------------- documents as users have stored them
FLL_DOC = """Engine: controller
description: of something
InputVariable: in1
  description: first
  enabled: true
  range: -1.000 2.000
  lock-range: true
  term: a Triangle 0.100 0.200 0.300 0.400
  term: b Gaussian 0.500 0.600
InputVariable: in2
  enabled: false
  range: -inf inf
  lock-range: false
  term: a Ramp 1.000 0.000
OutputVariable: out1
  description: the output
  enabled: true
  range: 0.000 1.000
  lock-range: true
  aggregation: AlgebraicSum
  defuzzifier: Bisector 50
  default: 0.250
  lock-previous: true
  term: x Ramp 0.000 1.000
  term: y Constant 3.000
OutputVariable: out2
  enabled: true
  range: 0.000 1.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedSum TakagiSugeno
  default: nan
  lock-previous: false
  term: l Linear 1.000 2.000 3.000
RuleBlock: rules
  description: all of them
  enabled: true
  conjunction: EinsteinProduct
  disjunction: BoundedSum
  implication: Minimum
  activation: First 2 0.300
  rule: if in1 is very a and in2 is not a then out1 is x
  rule: if in1 is b or in2 is a then out1 is y with 0.500
RuleBlock: more
  enabled: false
  conjunction: none
  disjunction: none
  implication: none
  activation: Threshold >= 0.700
  rule: if in1 is b then out2 is l
"""
FIS_DOC = """[System]
Name='controller'
Type='mamdani'
Version=2.0
NumInputs=2
NumOutputs=2
NumRules=3
AndMethod='prod'
OrMethod='probor'
ImpMethod='min'
AggMethod='sum'
DefuzzMethod='mom'

[Input1]
Name='in1'
Range=[-1 2]
NumMFs=2
MF1='a':'trimf',[0.1 0.2 0.3]
MF2='b':'gaussmf',[0.6 0.5]

[Input2]
Name='in2'
Range=[0 10]
NumMFs=1
MF1='a':'gbellmf',[2.5 4 6]

[Output1]
Name='out1'
Range=[0 1]
NumMFs=2
MF1='x':'smf',[0 1]
MF2='y':'constant',[3]

[Output2]
Name='out2'
Range=[0 1]
NumMFs=1
MF1='l':'linear',[1 2 3]

[Rules]
1.2 -1, 1 0 (1) : 1
2 1.05, 2 1 (0.5) : 2
-2.3 0, 0 1 (1) : 1
"""
FCL_DOC = """FUNCTION_BLOCK controller

VAR_INPUT
  in1: REAL;
  in2: REAL;
END_VAR

VAR_OUTPUT
  out1: REAL;
  out2: REAL;
END_VAR

FUZZIFY in1
  RANGE := (-1.000 .. 2.000);
  TERM a := Triangle 0.100 0.200 0.300 0.400;
  TERM b := (0.0, 0.1) (0.5, 1.0) (2.0, 0.3);
END_FUZZIFY

FUZZIFY in2
  RANGE := (0.000 .. 10.000);
  TERM a := Ramp 1.000 0.000;
END_FUZZIFY

DEFUZZIFY out1
  RANGE := (0.000 .. 1.000);
  TERM x := Ramp 0.000 1.000;
  TERM y := 3.000;
  METHOD : RM;
  ACCU : BSUM;
  DEFAULT := 0.250 | NC;
END_DEFUZZIFY

DEFUZZIFY out2
  RANGE := (0.000 .. 1.000);
  TERM l := Linear 1.000 2.000 3.000;
  METHOD : COGS;
  DEFAULT := nan;
END_DEFUZZIFY

RULEBLOCK rules
  AND : PROD;
  OR : ASUM;
  ACT : MIN;
  RULE 1 : if in1 is very a and in2 is not a then out1 is x
  RULE 2 : if in1 is b or in2 is a then out1 is y with 0.500
END_RULEBLOCK

RULEBLOCK more
  AND : BDIF;
  RULE 1 : if in1 is b then out2 is l
END_RULEBLOCK

END_FUNCTION_BLOCK
"""
DOC = {"FLL": FLL_DOC, "FIS": FIS_DOC, "FCL": FCL_DOC}


def nm(*xs):
    return [N.const(float(x)) for x in xs]


DOC_RULES = ("if in1 is very a and in2 is not a then out1 is x", "if in1 is b or in2 is a then out1 is y with 0.500")


def doc_spec(fmt):
    """What the documents say."""
    if fmt == "FLL":
        return E([V("in1", [T("Triangle", "a", nm(.1, .2, .3), h=0.4), T("Gaussian", "b", nm(.5, .6))], desc="first", lo=-1.0, hi=2.0, lockrange=True),
                  V("in2", [T("Ramp", "a", nm(1, 0))], enabled=False, lo=-INF, hi=INF)],
                 [V("out1", [T("Ramp", "x", nm(0, 1)), T("Constant", "y", nm(3))], desc="the output", lo=0.0, hi=1.0, lockrange=True, aggregation="AlgebraicSum",
                    defuzz=("Bisector", 50), default=.25, lockprev=True),
                  V("out2", [T("Linear", "l", nm(1, 2, 3))], lo=0.0, hi=1.0, aggregation=None, defuzz=("WeightedSum", 1))],
                 [B("rules", DOC_RULES, desc="all of them", conj="EinsteinProduct", disj="BoundedSum", impl="Minimum", act=("First", (("setNumberOfRules", 2), ("setThreshold", 0.3)))),
                  B("more", ("if in1 is b then out2 is l",), enabled=False, conj=None, disj=None, impl=None, act=("Threshold", (("setComparison", 4), ("setValue", 0.7))))],
                 "controller", "of something")
    if fmt == "FIS":
        kw = dict(lo=0.0, hi=1.0, aggregation="UnboundedSum", defuzz=("MeanOfMaximum", None))
        return E([V("in1", [T("Triangle", "a", nm(.1, .2, .3)), T("Gaussian", "b", nm(.5, .6))], lo=-1.0, hi=2.0), V("in2", [T("Bell", "a", nm(6, 2.5, 4))], lo=0.0, hi=10.0)],
                 [V("out1", [T("SShape", "x", nm(0, 1)), T("Constant", "y", nm(3))], **kw), V("out2", [T("Linear", "l", nm(1, 2, 3))], **kw)],
                 [B("", ("if in1 is very a and in2 is not a then out1 is x", "if in1 is b or in2 is somewhat a then out1 is y and out2 is l with 0.5", "if in1 is not extremely b then out2 is l"),
                    conj="AlgebraicProduct", disj="AlgebraicSum", impl="Minimum")], "controller")
    return E([V("in1", [T("Triangle", "a", nm(.1, .2, .3), h=0.4), T("Discrete", "b", nm(0, .1, .5, 1, 2, .3))], lo=-1.0, hi=2.0), V("in2", [T("Ramp", "a", nm(1, 0))], lo=0.0, hi=10.0)],
             [V("out1", [T("Ramp", "x", nm(0, 1)), T("Constant", "y", nm(3))], lo=0.0, hi=1.0, aggregation="BoundedSum", defuzz=("LargestOfMaximum", None), default=.25, lockprev=True),
              V("out2", [T("Linear", "l", nm(1, 2, 3))], lo=0.0, hi=1.0, aggregation=None, defuzz=("WeightedAverage", None))],
             [B("rules", DOC_RULES, conj="AlgebraicProduct", disj="AlgebraicSum", impl="Minimum"), B("more", ("if in1 is b then out2 is l",), conj="BoundedDifference", disj=None, impl=None)],
             "controller")


# Matlab's and IEC 61131-7's names and parameter orders
FIS_NAMES = {
    "AndMethod": {"min": "Minimum", "prod": "AlgebraicProduct", "bounded_difference": "BoundedDifference", "drastic_product": "DrasticProduct",
                  "einstein_product": "EinsteinProduct", "hamacher_product": "HamacherProduct", "nilpotent_minimum": "NilpotentMinimum"},
    "OrMethod": {"max": "Maximum", "probor": "AlgebraicSum", "bounded_sum": "BoundedSum", "normalized_sum": "NormalizedSum", "drastic_sum": "DrasticSum",
                 "einstein_sum": "EinsteinSum", "hamacher_sum": "HamacherSum", "nilpotent_maximum": "NilpotentMaximum", "sum": "UnboundedSum"},
    "DefuzzMethod": {"centroid": "Centroid", "bisector": "Bisector", "mom": "MeanOfMaximum", "lom": "LargestOfMaximum", "som": "SmallestOfMaximum",
                     "wtaver": "WeightedAverage", "wtsum": "WeightedSum"},
}
FIS_NAMES["ImpMethod"] = FIS_NAMES["AndMethod"]
FIS_NAMES["AggMethod"] = FIS_NAMES["OrMethod"]
FIS_TERMS = {"trimf": ("Triangle", "abc"), "trapmf": ("Trapezoid", "abcd"), "gaussmf": ("Gaussian", "ba"), "gauss2mf": ("GaussianProduct", "badc"), "gbellmf": ("Bell", "bca"),
             "sigmf": ("Sigmoid", "ba"), "dsigmf": ("SigmoidDifference", "bacd"), "psigmf": ("SigmoidProduct", "bacd"), "pimf": ("PiShape", "abcd"), "smf": ("SShape", "ab"),
             "zmf": ("ZShape", "ab"), "rampmf": ("Ramp", "ab"), "rectmf": ("Rectangle", "ab"), "spikemf": ("Spike", "ab"), "cosinemf": ("Cosine", "ab"), "concavemf": ("Concave", "ab"),
             "binarymf": ("Binary", "ab")}
FCL_NAMES = {
    "AND": {"MIN": "Minimum", "PROD": "AlgebraicProduct", "BDIF": "BoundedDifference", "DPROD": "DrasticProduct", "EPROD": "EinsteinProduct", "HPROD": "HamacherProduct",
            "NMIN": "NilpotentMinimum", "NONE": None},
    "OR": {"MAX": "Maximum", "ASUM": "AlgebraicSum", "BSUM": "BoundedSum", "NSUM": "NormalizedSum", "DSUM": "DrasticSum", "ESUM": "EinsteinSum", "HSUM": "HamacherSum",
           "NMAX": "NilpotentMaximum", "NONE": None},
    "METHOD": {"COG": "Centroid", "COA": "Bisector", "LM": "SmallestOfMaximum", "RM": "LargestOfMaximum", "MM": "MeanOfMaximum", "COGS": "WeightedAverage", "COGSS": "WeightedSum",
               "NONE": None},
}
FCL_NAMES["ACT"] = FCL_NAMES["AND"]
FCL_NAMES["ACCU"] = FCL_NAMES["OR"]

NOISE = "abc"


def malformed(fmt):
    """(case, text) of texts that must be refused."""
    out = []
    doc = DOC[fmt]

    def sub(case, old, new, after=""):
        k = doc.index(after) if after else 0
        if old not in doc[k:]:
            raise AnalysisBroken("no %r in the %s document" % (old, fmt))
        out.append((case, doc[:k] + doc[k:].replace(old, new, 1)))

    lines = doc.split("\n")
    if fmt == "FLL":
        part = "engine"
        for n, l in enumerate(lines):
            if not l.strip():
                continue
            key, _, value = l.partition(":")
            if not key.startswith(" ") and key != "description":
                part = key
            where = "line %d, %s, " % (n + 1, key.strip())

            def put(case, new, n=n, where=where):
                out.append((where + case, "\n".join(lines[:n] + [new] + lines[n + 1:])))
            put("without colon", l.replace(":", ""))
            put("an unknown key", key + "s:" + value)
            if len(key.strip()) > 1:
                put("a shortened key", key[:-1] + ":" + value)
            if part in ("InputVariable", "OutputVariable", "RuleBlock"):
                for other in ("conjunction", "disjunction", "implication", "activation", "rule") if part != "RuleBlock" else ("range", "term", "default", "lock-range", "lock-previous", "aggregation", "defuzzifier"):
                    if key.strip() == "enabled":
                        put("followed by " + other, l + "\n  %s: %s" % (other, {"range": "0 1", "term": "a Ramp 0 1", "default": "0", "rule": DOC_RULES[0], "activation": "General"}.get(other, "none" if "lock" not in other else "true")))
                if part == "InputVariable" and key.strip() == "enabled":
                    for other in ("default: 0", "lock-previous: true", "aggregation: none", "defuzzifier: none"):
                        put("followed by " + other, l + "\n  " + other)
            kk = key.strip()
            if kk in ("enabled", "lock-range", "lock-previous"):
                for v in ("", "True", "yes", "1", "tru", "falsee"):
                    put("value %r" % v, key + ": " + v)
            if kk == "range":
                for v in ("", "1", "1 a", "a 1", "1,2", "1 2 3"):
                    put("value %r" % v, key + ": " + v)
            if kk == "default":
                for v in ("", "abc", "1 2", "1a"):
                    put("value %r" % v, key + ": " + v)
            if kk in ("conjunction", "implication"):
                for v in ("Nope", "Maximum", "minimum", "Minimum 1", "None"):
                    put("value %r" % v, key + ": " + v)
            if kk in ("disjunction", "aggregation"):
                for v in ("Nope", "Minimum", "maximum", "Maximum 1", "None"):
                    put("value %r" % v, key + ": " + v)
            if kk == "defuzzifier":
                for v in ("Nope", "centroid", "Centroid abc", "WeightedSum abc", "WeightedAverage 100", "Centroid TakagiSugeno"):
                    put("value %r" % v, key + ": " + v)
            if kk == "activation":
                for v in ("Nope", "first", "First abc 0.3", "First 2 abc", "First 2", "Last abc", "Highest abc", "Lowest abc", "Threshold abc 0.5", "Threshold > abc", "Threshold >", "Maximum"):
                    put("value %r" % v, key + ": " + v)
            if kk == "term":
                for v in ("", "a", "a Nope 1 2", "a triangle 1 2 3", "a Triangle 1 2", "a Triangle 1 b 3", "a Gaussian 1", "a Ramp abc 1", "a Bell 1 2 3 abc", "a Discrete 1 b", "a Linear 1 b",
                          "a Function 1 +", "a Function (1 + 2", "a Function unknown + 1", "a Constant", "a Constant b"):
                    if v.endswith("Constant"):
                        continue
                    put("value %r" % v, key + ": " + v)
        out.append(("a line before everything", "something\n" + doc))
        out.append(("a key before everything", "range: 0 1\n" + doc))
        return out
    if fmt == "FIS":
        for sec, keys in (("[System]", "Name Type Version NumInputs NumOutputs NumRules AndMethod OrMethod ImpMethod AggMethod DefuzzMethod"), ("[Input1]", "Name Range NumMFs"), ("[Output2]", "Name Range NumMFs")):
            for key in keys.split():
                sub("%s: an unknown key for %s" % (sec, key), "\n" + key + "=", "\n" + key + "s=", after=sec)
                sub("%s: a shortened key for %s" % (sec, key), "\n" + key + "=", "\n" + key[:-1] + "=", after=sec)
            sub(sec + ": a line of text", sec + "\n", sec + "\nsomething\n")
        for sec in ("[Input1]", "[Input2]", "[Output1]", "[Output2]"):
            sub(sec + ": MF with another key", "\nMF1=", "\nNF1=", after=sec)
            sub(sec + ": no equals", "Range=", "Range ", after=sec)
            sub(sec + ": two equals", "NumMFs=", "NumMFs==1=", after=sec)
            sub(sec + ": unknown section", sec, "[Something]")
            for v in ("[1]", "[1 2 3]", "1 2", "[1 b]", "[a 2]", "1 2]", "[1 2", "[]", ""):
                sub("%s: range %r" % (sec, v), doc[doc.index("Range=", doc.index(sec)):].split("\n")[0], "Range=" + v, after=sec)
            l = doc[doc.index("MF1=", doc.index(sec)):].split("\n")[0]
            for v in ("'a'", "'a':'trimf'", "'a':'trimf',[1 2]", "'a':'nope',[1 2 3]", "'a':'trimf',[1 b 3]", "'a''trimf',[1 2 3]", "'a':[1 2 3]", "'a':'gaussmf',[1]", "'a':'gbellmf',[1 2]",
                      "'a':'gauss2mf',[1 2 3]", "'a':'sigmf',[1]", "'a':'dsigmf',[1 2 3]", "'a':'psigmf',[1 2 3]", "'a':'linear',[1 b]", "'a':'function',[1 +]", "'a':'trimf',[1 2 3],[4]", "'a':,[1 2 3]"):
                sub("%s: term %s" % (sec, v), l, "MF1=" + v, after=sec)
        for m, good, bad in (("AndMethod", "prod", ("Nope", "max", "probor", "mom")), ("OrMethod", "probor", ("Nope", "min", "prod", "mom")), ("ImpMethod", "min", ("Nope", "max")),
                             ("AggMethod", "sum", ("Nope", "min", "prod")), ("DefuzzMethod", "mom", ("Nope", "min", "MOM"))):
            for b in bad:
                sub("%s %s" % (m, b), "%s='%s'" % (m, good), "%s='%s'" % (m, b))
        out.append(("a line before every section", "something\n" + doc))
        out.append(("an unknown section at the start", "[Something]\n" + doc))
        out.append(("an unknown section at the end", doc + "[Something]\n"))
        for v in ("1 1 1 (1) : 1", "1 1, 1 1 (1) 1", "1, 1 1 (1) : 1", "1 1 1, 1 1 (1) : 1", "1 1, 1 (1) : 1", "1 1, 1 1 1 (1) : 1", "3 1, 1 1 (1) : 1", "1 2, 1 1 (1) : 1", "-3 1, 1 1 (1) : 1",
                  "1 1, 3 1 (1) : 1", "1 1, 1 2 (1) : 1", "1.7 1, 1 1 (1) : 1", "1 1.02, 1 1 (1) : 1", "1 1, 1.5 1 (1) : 1", "1 1, 1 1 (1) : 3", "1 1, 1 1 (1) : 0", "1 1, 1 1 (1) : and",
                  "a 1, 1 1 (1) : 1", "1 1, 1 b (1) : 1", "1 1, 1 1 (w) : 1", "1 1, 1 1 () : 1", "1 1, 1 1 (1) : 1 : 1", "1 1, 1 1, (1) : 1", "something"):
            sub("rule " + v, "1.2 -1, 1 0 (1) : 1", v)
        return out
    for tag in ("VAR_INPUT", "VAR_OUTPUT", "FUZZIFY", "DEFUZZIFY", "RULEBLOCK"):
        sub("misspelt " + tag, "\n" + tag, "\n" + tag + "S")
        sub("shortened " + tag, "\n" + tag, "\n" + tag[:-1])
        sub("unknown line in " + tag, "\n", "\n  SOMETHING : a b\n" if not tag.startswith("VAR") else "\n  something\n", after=tag)
        end = "END_VAR" if tag.startswith("VAR") else "END_" + tag
        sub("no %s after %s" % (end, tag), end + "\n", "\n", after="\n" + tag)
        sub("misspelt %s after %s" % (end, tag), end + "\n", end + "S\n", after="\n" + tag)
    out.append(("the last block is not closed", doc[:doc.rindex("END_RULEBLOCK")]))
    out.append(("the last block is not closed before the end", doc[:doc.rindex("END_RULEBLOCK")] + "END_FUNCTION_BLOCK\n"))
    sub("text between blocks", "END_VAR\n", "END_VAR\nsomething\n")
    for t, n in (("FUZZIFY", "in1"), ("DEFUZZIFY", "out1")):
        sub(t + " without name", "\n%s %s\n" % (t, n), "\n%s\n" % t)
        sub(t + " of an unknown variable", "\n%s %s\n" % (t, n), "\n%s %ss\n" % (t, n))
        sub(t + " of a variable of the other kind", "\n%s %s\n" % (t, n), "\n%s %s\n" % (t, "out1" if n == "in1" else "in1"))
        for v in ("RANGE := (1);", "RANGE := (1 2);", "RANGE := (1 .. 2 .. 3);", "RANGE := (a .. 1);", "RANGE := (1 .. b);", "RANGE (0 .. 1);", "RANGE : (0 .. 1);", "RANGE := ();", "RANGE := (0, 1);"):
            l = doc[doc.index("RANGE", doc.index("\n%s %s" % (t, n))):].split("\n")[0]
            sub("%s: %s" % (t, v), l, v, after="\n%s %s" % (t, n))
        for v in ("TERM", "TERM a", "TERM a :=", "TERM a = Ramp 0 1;", "TERM a : Ramp 0 1;", "TERM a Ramp 0 1;", "TERM a := Nope 1 2;", "TERM a := Triangle 1 2;", "TERM a := Triangle 1 b 3;",
                  "TERM a := (0, b);", "TERM a := Linear 1 b;", "TERM a := Function 1 +;", "TERM a := triangle 1 2 3;", "TERMS a := Ramp 0 1;"):
            l = doc[doc.index("TERM", doc.index("\n%s %s" % (t, n))):].split("\n")[0]
            sub("%s: %s" % (t, v), l, v, after="\n%s %s" % (t, n))
    for old, bad in (("METHOD : RM;", ("METHOD : Nope;", "METHOD RM;", "METHOD : RM : RM;", "METHODS : RM;", "METHOD : cog;", "METHOD : MAX;")),
                     ("ACCU : BSUM;", ("ACCU : Nope;", "ACCU BSUM;", "ACCU : MIN;", "ACCU : bsum;", "ACCU : BSUM : 1;", "ACCUM : BSUM;")),
                     ("DEFAULT := 0.250 | NC;", ("DEFAULT := abc;", "DEFAULT := ;", "DEFAULT 0.2;", "DEFAULT : 0.2;", "DEFAULT := 0.2 | XX;", "DEFAULT := 0.2 | NC | NC;", "DEFAULTS := 0.2;", "DEFAULT := 1 2;")),
                     ("AND : PROD;", ("AND : Nope;", "AND PROD;", "AND : MAX;", "AND : prod;", "AND : PROD : 1;", "ANDS : PROD;")),
                     ("OR : ASUM;", ("OR : Nope;", "OR ASUM;", "OR : MIN;", "OR : asum;", "ORS : ASUM;")),
                     ("ACT : MIN;", ("ACT : Nope;", "ACT MIN;", "ACT : MAX;", "ACTS : MIN;")),
                     ("RULE 1 :", ("RULES 1 :", "SOMETHING 1 :")),
                     ("in1: REAL;", ("in1 REAL;", "in1: REAL: 1;", "in1;"))):
        for b in bad:
            sub("%s for %s" % (b, old), old, b)
    for bad in ("LOCK : X;", "LOCK PREVIOUS;", "LOCK : previous;", "LOCK : PREVIOUS | X;", "LOCK : X | RANGE;", "LOCK : PREVIOUS | PREVIOUS;", "LOCK : RANGE | RANGE;", "LOCK : PREVIOUS | RANGE | RANGE;", "LOCK : ;",
                "LOCK : PREVIOUS RANGE;", "LOCKS : RANGE;", "ENABLED : MAYBE;", "ENABLED TRUE;", "ENABLED : TRUE : TRUE;", "ENABLED : true;", "ENABLED : ;", "ENABLED : 1;"):
        for at in ("\nFUZZIFY in1\n", "\nDEFUZZIFY out1\n", "\nRULEBLOCK rules\n"):
            if bad.startswith("ENABLED") or "DEF" in at:
                sub("%s in %s" % (bad, at.split()[0]), at, at + "  " + bad + "\n")
    return out


NAME = {"FLL": "Fll", "FIS": "Fis", "FCL": "Fcl"}


def importer(I, fmt):
    return I.make(NAME[fmt] + "Importer")


def exporter(I, fmt):
    return I.make(NAME[fmt] + "Exporter")


def refused(fmt, t):
    def f(I):
        imp = importer(I, fmt)
        expect_throw(I, lambda: I.call(imp, "fromString", t), "importing the malformed %s text" % fmt)
    return f


def check_format(chk, fmt):
    I, p = chk.I, chk.p
    chk.rule("round trip", "importing the exported text of an engine gives an engine equal in every query, and exporting that gives the same text")
    chk.rule("vocabulary", "the documented names, keys and parameter orders of the format are read as the components they stand for, and written so")
    chk.rule("refused", "a text with an unknown key, name, section or class, or with a malformed line, raises a fuzzylite exception")
    for c in (NAME[fmt] + "Exporter", NAME[fmt] + "Importer"):
        if FLN + c not in p.cls:
            raise AnalysisBroken("class %s not found" % c)
    we, wi = chk.loc(NAME[fmt] + "Exporter", "toString"), chk.loc(NAME[fmt] + "Importer", "fromString")
    ign = IGN + extra(fmt)
    for c, s in specs(fmt):
        for seed in (3000, 7000) if chk.thorough else (3000,):
            chk.obl("round trip", fmt, c, lambda I, s=s, seed=seed: again(I, chk, fmt, exporter(I, fmt), importer(I, fmt), s, seed), where=we)

    def in_file(I):
        e = make_engine(I, doc_spec(fmt))
        to_file(I, exporter(I, fmt), e, ("\n", ""))
        b = I.val(I.call(importer(I, fmt), "fromFile", "engine.txt"))
        return demand_same(describe(I, e, ignore=ign), describe(I, b, ignore=ign), "written to and read from a file, the engine")
    chk.obl("round trip", fmt, "a file", in_file, where=we)
    for how, end in (("without a line break at the end", ""), ("with an empty last line", "\n\n")):
        def from_file(I, end=end):
            I.files["engine.txt"] = DOC[fmt].rstrip("\n") + end
            b = I.val(I.call(importer(I, fmt), "fromFile", "engine.txt"))
            return demand_same(describe(I, make_engine(I, doc_spec(fmt)), ignore=ign), describe(I, b, ignore=ign), "read from a file, the engine")
        chk.obl("vocabulary", fmt, "a file " + how, from_file, where=wi)
    chk.obl("refused", fmt, "a file that cannot be created", lambda I: expect_throw(I, lambda: I.call(exporter(I, fmt), "toFile", "/no/such/engine.txt", make_engine(I, doc_spec(fmt))), "exporting to a file that cannot be created"), where=we)

    def doc(I):
        a = make_engine(I, doc_spec(fmt))
        b = imported(I, importer(I, fmt), DOC[fmt])
        return demand_same(describe(I, a, ignore=ign), describe(I, b, ignore=ign), "read from a document, the engine")
    chk.obl("vocabulary", fmt, "a document", doc, where=wi)
    for c, t in malformed(fmt):
        chk.obl("refused", fmt, c, refused(fmt, t), where=wi)
    check_lines(chk, fmt)


def to_file(I, x, e, ends, path="engine.txt"):
    """The exporter writes its text, and nothing else, to the file."""
    t = exported(I, x, e)
    I.files[path] = "old content\n" * 50
    I.call(x, "toFile", path, e)
    got = I.files.get(path)
    got = getattr(got, "buf", got)
    if got is None:
        raise Violated("writes no file")
    if not any(got == t + end for end in ends):
        raise Violated("the file holds %r, the text is %r" % (plain(got)[-200:], plain(t)[-200:]))


def same_engine(I, fmt, spec, t, what):
    ign = IGN + extra(fmt)
    return demand_same(describe(I, make_engine(I, spec), ignore=ign), describe(I, imported(I, importer(I, fmt), t), ignore=ign), what)


def c24(chk):
    from .copies import rich_engine
    I, p = chk.I, chk.p
    fmt = "FLL"
    check_format(chk, fmt)
    chk.rule("separator", "with any separator and indentation, set on both sides, the round trip holds; comments, empty lines and surrounding blanks change nothing")
    chk.rule("parts", "the text of a variable, rule block, rule, term or operator is the one that stands in the text of the engine")
    we = chk.loc("FllExporter", "toString")
    big = [E([V("in1", desc="d1", lockrange=True), V("in2", enabled=False)], [V("out1", desc="d2", default="some", lockprev=True), V("out2", lockrange=True, defuzz=("WeightedSum", 1))],
             [B("b1", R1, desc="d3"), B("b2", R1[1:], enabled=False, act=("First", (("setThreshold", "some"),)))], "the engine", "d4")]
    for sep in ("\n", "|", "; ", "~~", "\n\n", ";;;", "&", "<br>", " | "):
        for ind in ("  ", "", "\t", "        "):
            def sp(I, sep=sep, ind=ind):
                x, i = exporter(I, fmt), importer(I, fmt)
                I.call(x, "setSeparator", sep)
                I.call(x, "setIndent", ind)
                I.call(i, "setSeparator", sep)
                r = again(I, chk, fmt, x, i, big[0], 3000)
                if "\n" not in sep and "\n" in exported(I, x, make_engine(I, big[0])):
                    raise Violated("with the separator %r the text still contains line breaks" % sep)
                return r
            chk.obl("separator", "FLL", "separator %r, indentation %r" % (sep, ind), sp, where=we)

            def cs(I, sep=sep, ind=ind):
                x = I.make("FllExporter", ind, sep)
                i = I.make("FllImporter", sep)
                return again(I, chk, fmt, x, i, big[0], 3000)
            chk.obl("separator", "FLL", "separator %r, indentation %r, constructed" % (sep, ind), cs, where=we)
    for what, f in (("comments at the end of lines", lambda l: l + " # range: 1 2" if l else l), ("comment lines", lambda l: "# term: z Ramp 0 1\n" + l), ("empty lines", lambda l: "\n" + l + "\n"),
                    ("surrounding blanks", lambda l: "   " + l + "   "), ("no indentation", lambda l: l.strip()), ("blanks around the colon", lambda l: l.replace(":", " :   ", 1))):
        chk.obl("separator", "FLL", what, lambda I, f=f: same_engine(I, fmt, doc_spec(fmt), "\n".join(f(l) for l in FLL_DOC.split("\n")), "with " + what + ", the engine"),
                where=chk.loc("FllImporter", "fromString"))

    def resolutions(I, cls, d, v):
        q = "fuzzylite::IntegralDefuzzifier::"
        old = I.val(I.scall(q + "defaultResolution"))
        I.scall(q + "setDefaultResolution", d)
        try:
            return again(I, chk, fmt, exporter(I, fmt), importer(I, fmt), E(ab(1), [V("out1", defuzz=(cls, v)), V("out2", defuzz=(cls, d)), V("out3", defuzz=(cls, None))], [B()]), 3000)
        finally:
            I.scall(q + "setDefaultResolution", old)
    for cls in ("Centroid", "Bisector", "MeanOfMaximum"):
        for d in (100, 1000, 200, 50):
            for v in (100, 1000, 200, 77):
                chk.obl("round trip", fmt, "%s %d with a default resolution of %d" % (cls, v, d), lambda I, cls=cls, d=d, v=v: resolutions(I, cls, d, v), where=we)

    def parts(I, flip):
        e = rich_engine(I, flip=flip, weights=False, fuzzy=False)
        x = exporter(I, fmt)
        t = exported(I, x, e)
        objs = ins(I, e) + outs(I, e) + blocks_of(I, e)
        for o in list(objs):
            if o.dyn == FLN + "RuleBlock":
                objs += [I.val(r) for r in I.val(I.call(o, "rules")).x]
                objs += [I.val(I.call(o, g)) for g in ("getConjunction", "getDisjunction", "getImplication", "getActivation")]
            else:
                objs += [I.val(r) for r in I.val(I.call(o, "terms")).x]
                if o.dyn == FLN + "OutputVariable":
                    objs += [I.val(I.call(o, g)) for g in ("getAggregation", "getDefuzzifier")]
        for o in objs:
            if o is None or o.dyn == FLN + "Function":
                continue
            u = exported(I, x, o)
            if not u or u not in t:
                raise Violated("the text of a %s alone, %r, does not stand in the text of the engine" % (short(o.dyn), plain(u)))
        for g, et in (("inputVariables", "InputVariable"), ("outputVariables", "OutputVariable"), ("ruleBlocks", "RuleBlock")):
            u = exported(I, x, I.val(I.call(e, g)))
            if u not in t or not u.startswith(et):
                raise Violated("the text of the %s alone does not stand in the text of the engine" % g)
        sep = I.get(x, "getSeparator")
        sep = sep.v if hasattr(sep, "v") else sep

        def listed(objs, et):
            u = exported(I, x, I.std.Vec([Cell(o) for o in objs], FLN + et + " *"))
            want = [exported(I, x, o) for o in objs]
            if et == "Variable":
                want = [t[len("Input"):] for t in want]
            want = sep.join(want)
            if u != want:
                raise Violated("the text of %d %s is %r, one after the other they are %r" % (len(objs), et, plain(u), plain(want)))
        for n in (0, 1, 2):
            listed(ins(I, e)[:n], "InputVariable")
            listed(outs(I, e)[:n], "OutputVariable")
            listed(blocks_of(I, e)[:n], "RuleBlock")
            listed(ins(I, e)[:n], "Variable")
            listed([o for o in objs if o is not None and I.p.is_a(o.dyn, FLN + "Term") and o.dyn != FLN + "Function"][:n + 1], "Term")
        listed([], "Term")
        v = I.make("Variable")
        I.call(v, "setName", "v")
        I.call(v, "setDescription", "d")
        nums = Values(I, 50)
        I.call(v, "setRange", nums.num(), nums.num())
        I.call(v, "setLockValueInRange", flip)
        I.call(v, "setEnabled", not flip)
        I.call(v, "addTerm", make_term(I, T("Ramp"), nums, None))
        i = I.make("InputVariable")
        for n in ("Name", "Description"):
            I.call(i, "set" + n, I.get(v, "get" + n))
        I.call(i, "setRange", I.num(I.call(v, "getMinimum")), I.num(I.call(v, "getMaximum")))
        I.call(i, "setLockValueInRange", flip)
        I.call(i, "setEnabled", not flip)
        I.call(i, "addTerm", make_term(I, T("Ramp"), Values(I, 52), None))
        a, b = exported(I, x, v), exported(I, x, i)
        if "Input" + a != b:
            raise Violated("a variable is written %r, the same as an input variable %r" % (plain(a), plain(b)))
    for flip in (False, True):
        chk.obl("parts", "FllExporter", "a rich engine%s" % (", flipped" if flip else ""), lambda I, flip=flip: parts(I, flip), where=we)
    return "Interprets FllExporter and FllImporter over engines that vary one attribute, class, operator or flag at a time and over documents with one line made malformed."


def names_of_doc(fmt, key, name):
    return name


def c25(chk):
    I = chk.I
    fmt = "FIS"
    check_format(chk, fmt)
    we = chk.loc("FisExporter", "toString")
    one = lambda **kw: E(ab(2), [V("out1", aggregation=kw.pop("aggregation", "Maximum"), defuzz=(kw.pop("defuzz", "Centroid"), None))], [B("", ("if in1 is a then out1 is x",), **kw)])
    slot = {"AndMethod": "conj", "OrMethod": "disj", "ImpMethod": "impl", "AggMethod": "aggregation", "DefuzzMethod": "defuzz"}
    for key, names in FIS_NAMES.items():
        for n, cls in names.items():
            def f(I, key=key, n=n, cls=cls):
                t = exported(I, exporter(I, fmt), make_engine(I, one(**{slot[key]: cls})))
                if "\n%s='%s'\n" % (key, n) not in t:
                    raise Violated("%s as %s is written %r, in the format it is %s='%s'" % (cls, key, next((l for l in t.split("\n") if l.startswith(key)), ""), key, n))
                d = FIS_DOC[:FIS_DOC.index(key + "=")] + "%s='%s'\n" % (key, n) + FIS_DOC[FIS_DOC.index("\n", FIS_DOC.index(key + "=")) + 1:]
                s = doc_spec(fmt)
                if key == "AggMethod":
                    for o in s.outs:
                        o.aggregation = cls
                elif key == "DefuzzMethod":
                    for o in s.outs:
                        o.defuzz = (cls, None)
                else:
                    setattr(s.blocks[0], slot[key], cls)
                return same_engine(I, fmt, s, d, "with %s='%s', the engine" % (key, n))
            chk.obl("vocabulary", "FIS", "%s %s" % (key, n), f, where=we)
    for n, (cls, order) in FIS_TERMS.items():
        def g(I, n=n, cls=cls, order=order):
            args = [N.const(float(j + 2)) for j in range(len(order))]
            vals = " ".join("%d" % (ord(ch) - ord("a") + 2) for ch in order)
            t = exported(I, exporter(I, fmt), make_engine(I, E([V("in1", [T(cls, "q", args)])], xy(1), [B()])))
            head = "MF1='q':'%s',[" % n
            if head not in t:
                raise Violated("a %s is written %r, in the format its class is %s" % (cls, plain(next((l for l in t.split("\n") if l.startswith("MF1")), "")), n))
            got = t[t.index(head) + len(head):].split("]")[0].split()
            want = [text(I, N.const(float(v))) for v in vals.split()]
            if got != want:
                raise Violated("the parameters of %s are written as %s, in the format they are %s" % (cls, [plain(x) for x in got], vals))
            d = FIS_DOC.replace("'a':'trimf',[0.1 0.2 0.3]", "'a':'%s',[%s]" % (n, vals))
            s = doc_spec(fmt)
            s.ins[0].terms[0] = T(cls, "a", args)
            return same_engine(I, fmt, s, d, "with a %s, the engine" % n)
        chk.obl("vocabulary", "FIS", n, g, where=we)
    chk.rule("connectors", "a rule is written with its one connector, and refused when it mixes two")
    from .engine import trees, render
    for t in [x for k in (1, 2, 3, 4) for x in trees(k)]:
        def con(I, t=t):
            rule = "if %s then out1 is x" % render(t, ["in%d is %s" % (k // 2 + 1, "ab"[k % 2]) for k in range(4)], iter(range(9)))
            used = {w for w in rule.split() if w in ("and", "or")}
            e = make_engine(I, E(ab(2), xy(1), [B("", (rule,))]))
            try:
                got = exported(I, exporter(I, fmt), e)
            except CppThrow as ex:
                if len(used) < 2:
                    raise Violated("`%s` is refused: %s" % (rule, ex))
                return None
            if len(used) > 1:
                raise Violated("`%s`, which mixes two connectors, is written %r" % (rule, got[got.index("[Rules]"):]))
            n = rule.count(" is ") - 1
            line = [l for l in got[got.index("[Rules]"):].split("\n") if ":" in l]
            if len(line) != 1 or line[0].split(":")[1].strip() not in (("2",) if used == {"or"} else ("1",)):
                raise Violated("`%s` is written %r" % (rule, line))
        chk.obl("connectors", "FIS", str(t), con, where=chk.loc("FisExporter", "exportRule"))
    chk.rule("negation", "a proposition with several not is written and read back with as many, up to pairs")
    for n in (1, 2, 3, 4):
        for h in ("", "very ", "somewhat "):
            def neg(I, n=n, h=h):
                rule = "if in1 is %s%sa and in2 is b then out1 is x" % ("not " * n, h)
                t = exported(I, exporter(I, fmt), make_engine(I, E(ab(2), xy(1), [B("", (rule,))])))
                e = imported(I, importer(I, fmt), t)
                r = I.val(I.call(I.val(I.call(e, "getRuleBlock", 0)), "getRule", 0))
                want = "if in1 is %s%sa and in2 is b then out1 is x" % ("not " * (n % 2), h)
                got = I.get(r, "getText")
                got = got.v if got.__class__ is I.std.SStr else got
                if " ".join(got.split()) != want:
                    raise Violated("%r is written %r and read back as %r" % (rule, t[t.index("[Rules]"):], got))
            chk.obl("negation", "FIS", "%d not%s" % (n, ", " + h.strip() if h else ""), neg, where=we)
    return "Interprets FisExporter and FisImporter over engines that vary one operator, term class, rule shape, hedge or weight at a time and over documents with one line made malformed."


def c26(chk):
    I = chk.I
    fmt = "FCL"
    check_format(chk, fmt)
    we = chk.loc("FclExporter", "toString")
    chk.rule("layout", "comments, empty lines, indentation and missing semicolons change nothing")
    chk.rule("rule text", "the text of a rule is all that follows the colon after its number")
    for head in ("RULE 1 : ", "RULE 1: ", "RULE 12 :", "  RULE 2 :   "):
        for body in ("if in1 is a then out1 is x", "if in1 is a : b then out1 is x", "if a:b is c then d:e is f", ": if in1 is a then out1 is x", "if in1 is a then out1 is x :", "else"):
            def rt(I, head=head, body=body):
                t = FCL_DOC.replace("RULEBLOCK rules\n", "RULEBLOCK rules\n" + head + body + "\n", 1)
                if t == FCL_DOC:
                    raise AnalysisBroken("the document has no rule block named rules")
                e = imported(I, importer(I, fmt), t)
                b = I.val(I.call(e, "getRuleBlock", 0))
                r = I.val(I.call(b, "getRule", 0))
                got = I.get(r, "getText")
                got = got.v if got.__class__ is I.std.SStr else got
                if got != body:
                    raise Violated("%r is read as the rule %r" % (head + body, got))
            chk.obl("rule text", "FCL", head + body, rt, where=chk.loc("FclImporter", "processRuleBlock"))
    slot = {"AND": "conj", "OR": "disj", "ACT": "impl", "ACCU": "aggregation", "METHOD": "defuzz"}
    old = {"AND": "AND : PROD;", "OR": "OR : ASUM;", "ACT": "ACT : MIN;", "ACCU": "ACCU : BSUM;", "METHOD": "METHOD : RM;"}
    for key, names in FCL_NAMES.items():
        for n, cls in names.items():
            def f(I, key=key, n=n, cls=cls):
                s = doc_spec(fmt)
                if key == "ACCU":
                    s.outs[0].aggregation = cls
                elif key == "METHOD":
                    s.outs[0].defuzz = (cls, None) if cls else None
                else:
                    setattr(s.blocks[0], slot[key], cls)
                t = exported(I, exporter(I, fmt), make_engine(I, s))
                if cls and "%s : %s;" % (key, n) not in t:
                    raise Violated("%s as %s is not written as %s in %r" % (cls, key, n, [l for l in t.split("\n") if key in l]))
                return same_engine(I, fmt, s, FCL_DOC.replace(old[key], "%s : %s;" % (key, n), 1), "with %s : %s, the engine" % (key, n))
            chk.obl("vocabulary", "FCL", "%s %s" % (key, n), f, where=we)
    for what, f in (("comments at the end of lines", lambda l: l + " // RANGE := (0 .. 1);"), ("comment lines", lambda l: "# TERM a\n// END_VAR\n" + l), ("empty lines", lambda l: "\n" + l + "\n"),
                    ("more indentation", lambda l: "      " + l + "  "), ("no indentation", lambda l: l.strip()), ("no semicolons", lambda l: l.replace(";", ""))):
        chk.obl("layout", "FCL", what, lambda I, f=f: same_engine(I, fmt, doc_spec(fmt), "\n".join(f(l) for l in FCL_DOC.split("\n")), "with " + what + ", the engine"),
                where=chk.loc("FclImporter", "fromString"))
    for ind in ("", "\t", "      "):
        def g(I, ind=ind):
            x = I.make("FclExporter", ind)
            y = exporter(I, fmt)
            I.call(y, "setIndent", ind)
            s = doc_spec(fmt)
            if exported(I, x, make_engine(I, s)) != exported(I, y, make_engine(I, s)):
                raise Violated("an indentation given to the constructor is not the one that is set")
            return again(I, chk, fmt, x, importer(I, fmt), s, 3000)
        chk.obl("layout", "FCL", "indentation %r" % ind, g, where=we)
    return "Interprets FclExporter and FclImporter over engines that vary one attribute, class or operator at a time and over documents with one line made malformed."


# --------------------------------------------------------------------------- order and presence of the lines
def sections(fmt):
    """The document as [first lines, inner lines, last lines] per section."""
    lines = DOC[fmt].split("\n")
    out = []
    if fmt == "FLL":
        out.append([lines[:2], [], []])
        for l in lines[2:]:
            if l and l[0] != " ":
                out.append([[l], [], []])
            elif l:
                out[-1][1].append(l)
        return out
    for l in lines:
        if fmt == "FIS":
            if l.startswith("["):
                out.append([[l], [], [""]])
            elif l:
                out[-1][1].append(l)
        elif l.startswith(("VAR", "FUZZ", "DEFUZZ", "RULEB", "FUNCTION")):
            out.append([[l], [], []])
        elif l.startswith("END_"):
            if l == "END_FUNCTION_BLOCK":
                out.append([[l], [], []])
            else:
                out[-1][2] = [l, ""]
        elif l:
            out[-1][1].append(l)
    return out


def joined(secs):
    return "\n".join(l for s in secs for part in s for l in part) + "\n"


SEQUENCE = ("  TERM ", "  RULE ", "  term:", "  rule:", "MF")


def arrangements(ls):
    """Orders of the lines of a section that keep its terms and rules in theirs."""
    seq = [l for l in ls if l.startswith(SEQUENCE)]
    oth = [l for l in ls if not l.startswith(SEQUENCE)]
    out = [("reversed, terms and rules first", seq + oth[::-1]), ("terms and rules first", seq + oth), ("reversed, terms and rules last", oth[::-1] + seq)]
    for k in range(1, len(oth)):
        out.append(("rotated by %d" % k, oth[k:] + oth[:k] + seq))
    if len(seq) > 1:
        out.append(("terms and rules apart", seq[:1] + oth + seq[1:]))
    seen, res = [ls], []
    for c, x in out:
        if x not in seen:
            seen.append(x)
            res.append((c, x))
    return res


def variants(fmt):
    """(case, text, specification)"""
    secs = sections(fmt)
    if joined(secs).split() != DOC[fmt].split():
        raise AnalysisBroken("sections of the %s document" % fmt)
    out = []
    for k, (h, ls, e) in enumerate(secs):
        head = h[0].strip(" :") or "?"
        if fmt == "FIS" and head == "[Rules]" or h[0].startswith("VAR_"):
            continue
        for c, x in arrangements(ls):
            out.append(("%s %s" % (head, c), joined(secs[:k] + [[h, x, e]] + secs[k + 1:]), doc_spec(fmt)))

    def put(case, k, line, at, change):
        h, ls, e = secs[k]
        for pos in at:
            n = pos if pos >= 0 else len(ls) + 1 + pos
            s = doc_spec(fmt)
            change(s)
            out.append(("%s: %s at line %d" % (h[0], case, n), joined(secs[:k] + [[h, ls[:n] + [line] + ls[n:], e]] + secs[k + 1:]), s))

    def attr(pick, **kw):
        def f(s):
            pick(s).__dict__.update(kw)
        return f
    picks = [(lambda s, j=j: s.ins[j]) for j in (0, 1)] + [(lambda s, j=j: s.outs[j]) for j in (0, 1)] + [(lambda s, j=j: s.blocks[j]) for j in (0, 1)]
    if fmt == "FCL":
        first = next(k for k, s in enumerate(secs) if s[0][0].startswith("FUZZIFY"))
        for j, pick in enumerate(picks):
            for w, b in (("TRUE", True), ("FALSE", False)):
                put("ENABLED " + w, first + j, "  ENABLED : %s;" % w, (0, 1, -1), attr(pick, enabled=b))
        for w, lp, lr in (("PREVIOUS", True, False), ("RANGE", False, True), ("PREVIOUS | RANGE", True, True), ("RANGE | PREVIOUS", True, True)):
            put("LOCK " + w, first + 3, "  LOCK : %s;" % w, (0, 1, 2, -1), attr(picks[3], lockprev=lp, lockrange=lr))
        put("LOCK with NC", first + 2, "  LOCK : PREVIOUS | RANGE;", (0, -1), attr(picks[2], lockprev=True, lockrange=True))
        k = first
        for c, o in (("inputs exchanged", (1, 0, 2, 3)), ("outputs before inputs", (2, 3, 0, 1)), ("outputs exchanged", (0, 1, 3, 2)), ("alternating", (3, 0, 2, 1))):
            out.append((c, joined(secs[:k] + [secs[k + j] for j in o] + secs[k + 4:]), doc_spec(fmt)))
    if fmt == "FIS":
        for j, pick in enumerate(picks[:4]):
            for w, b in (("1", True), ("0", False)):
                put("Enabled=" + w, 1 + j, "Enabled=" + w, (0, 1, -1), attr(pick, enabled=b))
        for j in (2, 3):
            for w, d in (("0.75", .75), ("-1", -1.0), ("nan", None), ("inf", INF)):
                put("Default=" + w, 1 + j, "Default=" + w, (0, -1), attr(picks[j], default=d))
            for w, b in (("1", True), ("0", False)):
                put("LockPrevious=" + w, 1 + j, "LockPrevious=" + w, (0, 2, -1), attr(picks[j], lockprev=b))
                put("LockRange=" + w, 1 + j, "LockRange=" + w, (0, 2, -1), attr(picks[j], lockrange=b))
        for c, o in (("outputs before inputs", (3, 4, 1, 2)), ("alternating", (1, 3, 2, 4)), ("the system last", (1, 2, 3, 4, 0))):
            rest = [s for j, s in enumerate(secs) if j not in o]
            if c == "the system last":
                continue
            out.append((c, joined(secs[:1] + [secs[j] for j in o] + secs[5:]), doc_spec(fmt)))
    if fmt == "FLL":
        for c, o in (("outputs before inputs", (3, 4, 1, 2)), ("alternating", (1, 3, 2, 4)), ("outputs first, alternating", (3, 1, 4, 2))):
            out.append((c, joined(secs[:1] + [secs[j] for j in o] + secs[5:]), doc_spec(fmt)))
        dflt = ("  enabled: true", "  lock-range: false", "  lock-previous: false", "  default: nan", "  aggregation: none", "  conjunction: none", "  disjunction: none", "  implication: none")
        for k, (h, ls, e) in enumerate(secs):
            for n, l in enumerate(ls):
                if l in dflt:
                    out.append(("%s without %s" % (h[0], l.strip()), joined(secs[:k] + [[h, ls[:n] + ls[n + 1:], e]] + secs[k + 1:]), doc_spec(fmt)))
        out.append(("without any line that says the default", "\n".join(l for l in FLL_DOC.split("\n") if l not in dflt), doc_spec(fmt)))
    return out


def check_lines(chk, fmt):
    chk.rule("lines", "the order of the lines within a section and of the sections of variables makes no difference (terms, rules and variables keep theirs), "
             "an omitted line means its default, and every optional line sets what it says, wherever in the section it stands")
    where = chk.loc(NAME[fmt] + "Importer", "fromString")
    for c, t, s in variants(fmt):
        chk.obl("lines", fmt, c, lambda I, t=t, s=s, c=c: same_engine(I, fmt, s, t, "with %s, the engine" % c), where=where)
