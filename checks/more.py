"""C37 (type of an engine, engine-wide configuration), C38 (command line), C42 (decimals of written numbers), C45 (R scripts)."""
import itertools, re
from flai import num as N
from flai.check import AnalysisBroken, same, show, Violated, Undecided, CppThrow, INF
from flai.interp import Cell, UB
from flai.stdlib import Stream
from .fuzzy import expect, expect_throw, opaque, FLN
from . import objects as OB
from .objects import Values, describe, demand_same, short, NAMES, concrete
from .params import text, plain
from .copies import rich_engine, outs, ins, blocks_of, no_leak
from .texts import E, V, B, T, make_engine, exported, imported, importer, exporter, ab, xy, R1, DOC, doc_spec, IGN, ARITY
from .data import Machine, invoke, enum, scope

INTEGRAL = ("Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum")
WEIGHTED = ("WeightedAverage", "WeightedSum")
SUGENO = ("Constant", "Linear", "Function")
MONOTONIC = ("Arc", "Concave", "Ramp", "SShape", "Sigmoid", "ZShape")


# --------------------------------------------------------------------------- C37
def kind_of(os, impls):
    """os: per output (defuzzifier or None, type 0 Automatic 1 TakagiSugeno 2 Tsukamoto, term classes)"""
    if not os:
        return "Unknown"
    if all(d in INTEGRAL for d, _, _ in os):
        return "Larsen" if impls and all(i == "AlgebraicProduct" for i in impls) else "Mamdani"
    if all(d in WEIGHTED and t in (0, 1) and all(c in SUGENO for c in cs) for d, t, cs in os):
        return "TakagiSugeno"
    if all(d in WEIGHTED and t in (0, 2) and all(c in MONOTONIC for c in cs) for d, t, cs in os):
        return "Tsukamoto"
    if all(d in WEIGHTED for d, _, _ in os):
        return "InverseTsukamoto"
    if all(d is not None for d, _, _ in os):
        return "Hybrid"
    return "Unknown"


TYPES = ("Unknown", "Mamdani", "Larsen", "TakagiSugeno", "Tsukamoto", "InverseTsukamoto", "Hybrid")
TITLE = {"TakagiSugeno": "Takagi-Sugeno", "InverseTsukamoto": "Inverse Tsukamoto"}


def c37(chk):
    I, p = chk.I, chk.p
    chk.rule("type", "the type of an engine is the documented one for its defuzzifiers, their types, the output terms and the implications, with its name and a reason, in every order")
    chk.rule("changes", "the type follows every change of a component")
    chk.rule("configure", "configuring an engine puts an operator of the given class, each its own, into every rule block and every output variable, and changes nothing else")
    w = chk.loc("Engine", "type")

    def spec(os, impls, ni=1):
        return E(ab(ni), [V("out%d" % (k + 1), [T(c, "t%d" % j, "in1 + 1" if c == "Function" else None) for j, c in enumerate(cs)], defuzz=(d, t if d in WEIGHTED else None) if d else None)
                          for k, (d, t, cs) in enumerate(os)], [B("b%d" % k, impl=i) for k, i in enumerate(impls)])

    def ask(I, e, want):
        n, r = Cell(I.std.SStr("junk")), Cell(I.std.SStr("junk"))
        for a in ((n, r), (n, None), (None, r), (None, None)):
            got = I.val(I.call(e, "type", *a))
            code = enum(I, "Engine::Type", want)
            if got != code:
                raise Violated("the type is %s, specified %s" % (next((k for k in TYPES if enum(I, "Engine::Type", k) == got), got), want))
        s = I.val(n)
        s = s.v if hasattr(s, "v") else s
        if s != TITLE.get(want, want):
            raise Violated("the type is named %r, specified %r" % (s, TITLE.get(want, want)))
        s = I.val(r)
        s = s.v if hasattr(s, "v") else s
        if not s or s == "junk":
            raise Violated("no reason is given for the type")

    def go(case, os, impls, ni=1):
        want = kind_of(os, impls)
        chk.obl("type", "Engine::type", "%s: %s" % (want, case), lambda I: ask(I, make_engine(I, spec(os, impls, ni)), want), where=w)
    go("no outputs", [], [])
    go("no outputs, blocks", [], ["AlgebraicProduct"])
    for d in INTEGRAL:
        for n in (1, 2, 3):
            for impls in ([], ["AlgebraicProduct"], ["Minimum"], [None], ["AlgebraicProduct"] * 2, ["AlgebraicProduct", "Minimum"], ["Minimum", "AlgebraicProduct"], ["AlgebraicProduct", None],
                          ["AlgebraicProduct", "AlgebraicProduct", "EinsteinProduct"]):
                if n > 1 and d != "Centroid" and not chk.thorough:
                    continue
                go("%d of %s, implications %s" % (n, d, impls), [(d, 0, ["Triangle"])] * n, impls)
    for t in NAMES["TNorm"].split():
        go("implication %s" % t, [("Centroid", 0, ["Triangle"])], [t])
    go("different integral", [("Centroid", 0, ["Triangle"]), ("Bisector", 0, ["Ramp"])], ["AlgebraicProduct"])
    classes = sorted(set(ARITY) | {"Arc"} if FLN + "Arc" in p.cls else set(ARITY))
    for d, t in itertools.product(WEIGHTED, (0, 1, 2)):
        for c in classes:
            go("%s of type %d over %s" % (d, t, c), [(d, t, [c])], ["Minimum"])
        for cs in ([], ["Constant", "Linear", "Function"], ["Ramp", "Sigmoid"], ["Constant", "Ramp"], ["Ramp", "Constant"], ["Concave", "SShape", "ZShape", "Triangle"], ["Triangle", "Ramp"],
                   ["Linear", "Linear", "Bell"]):
            go("%s of type %d over %s" % (d, t, cs), [(d, t, cs)], ["AlgebraicProduct"])
    mix = [("Centroid", 0, ["Triangle"]), ("WeightedAverage", 0, ["Constant"]), ("WeightedSum", 1, ["Linear"]), ("WeightedAverage", 2, ["Ramp"]), ("WeightedSum", 0, ["Ramp"]),
           ("WeightedAverage", 0, ["Triangle"]), (None, 0, ["Ramp"]), ("WeightedAverage", 0, []), ("WeightedAverage", 2, ["Constant"]), ("WeightedAverage", 1, ["Ramp"])]
    for a, b in itertools.product(mix, repeat=2):
        go("%s and %s" % (a, b), [a, b], ["AlgebraicProduct"])
    for a, b, c in itertools.product(mix[:7], repeat=3):
        if len({str(a), str(b), str(c)}) == 3 and (chk.thorough or hash_of(a, b, c) % 4 == 0):
            go("%s, %s and %s" % (a, b, c), [a, b, c], ["AlgebraicProduct"])

    # ---- nothing else matters
    def flip(I, e, what):
        bs, os, is_ = blocks_of(I, e), outs(I, e), ins(I, e)
        for k, b in enumerate(bs):
            if what in ("first block disabled", "last block disabled") and k == (0 if what[0] == "f" else len(bs) - 1) or what == "blocks disabled":
                I.call(b, "setEnabled", False)
            if what == "other operators":
                I.call(b, "setConjunction", I.make("AlgebraicProduct"))
                I.call(b, "setDisjunction", I.make("Maximum"))
                I.call(b, "setActivation", I.make("First"))
            if what == "no other operators":
                for m in ("setConjunction", "setDisjunction", "setActivation"):
                    I.call(b, m, None)
            if what == "rules":
                I.call(b, "addRule", I.make("Rule", "if in1 is t then out1 is t0"))
            if what == "names":
                I.call(b, "setName", "")
        for k, v in enumerate(os):
            if what in ("first output disabled", "last output disabled") and k == (0 if what[0] == "f" else len(os) - 1) or what == "outputs disabled":
                I.call(v, "setEnabled", False)
            if what == "no other operators":
                I.call(v, "setAggregation", None)
            if what == "other operators":
                I.call(v, "setAggregation", I.make("UnboundedSum"))
            if what == "values":
                I.call(v, "setValue", 0.5)
                I.call(v, "setDefaultValue", 0.25)
                I.call(v, "setLockPreviousValue", True)
                I.call(v, "setLockValueInRange", True)
                I.call(v, "setRange", -INF, INF)
            if what == "activated" and I.get(v, "numberOfTerms"):
                I.call(I.get(v, "fuzzyOutput"), "addTerm", I.make("Triangle", "foreign"), 0.5, None)
            if what == "resolution":
                d = I.get(v, "getDefuzzifier")
                if d is not None and short(d.dyn) in INTEGRAL:
                    I.call(d, "setResolution", 7)
        for v in is_:
            if what == "inputs disabled":
                I.call(v, "setEnabled", False)
        if what == "no inputs":
            I.call(e, "setInputVariables", I.std.Vec([], "fuzzylite::InputVariable *"))
    WHAT = ("first block disabled", "last block disabled", "blocks disabled", "other operators", "no other operators", "rules", "names", "first output disabled", "last output disabled", "outputs disabled",
            "values", "activated", "resolution", "inputs disabled", "no inputs")
    pool = [([a], im) for a in mix for im in (["AlgebraicProduct"], ["AlgebraicProduct", "Minimum"], ["Minimum", "AlgebraicProduct"], [None, "AlgebraicProduct"])] + \
        [([a, b], ["AlgebraicProduct"]) for a, b in itertools.product(mix, repeat=2) if a is not b and (chk.thorough or hash_of(a, b) % 3 == 0)]
    for os, impls in pool:
        for what in WHAT:
            def f(I, os=os, impls=impls, what=what):
                e = make_engine(I, spec(os, impls))
                flip(I, e, what)
                ask(I, e, kind_of(os, impls))
            chk.obl("changes", "Engine::type", "%s, implications %s: %s" % (os, impls, what), f, where=w)

    def changes(I):
        e = make_engine(I, spec([("Centroid", 0, ["Ramp"]), ("Centroid", 0, ["Ramp"])], ["AlgebraicProduct"]))
        o, o2 = outs(I, e)
        b = blocks_of(I, e)[0]
        ask(I, e, "Larsen")
        I.call(b, "setImplication", I.make("Minimum"))
        ask(I, e, "Mamdani")
        I.call(o2, "setDefuzzifier", I.make("WeightedAverage"))
        ask(I, e, "Hybrid")
        I.call(o, "setDefuzzifier", I.make("WeightedSum"))
        ask(I, e, "Tsukamoto")
        I.call(o, "addTerm", I.make("Triangle"))
        ask(I, e, "InverseTsukamoto")
        I.call(o2, "setDefuzzifier", None)
        ask(I, e, "Unknown")
        for v in (o, o2):
            I.call(v, "setTerms", I.std.Vec([Cell(I.make("Constant"))], "fuzzylite::Term *"))
        I.call(o2, "setDefuzzifier", I.make("WeightedSum"))
        ask(I, e, "TakagiSugeno")
        c = I.val(I.call(e, "clone"))
        ask(I, c, "TakagiSugeno")
        I.call(c, "setOutputVariables", I.std.Vec([], "fuzzylite::OutputVariable *"))
        ask(I, c, "Unknown")
    chk.obl("changes", "Engine::type", "a sequence of changes", changes, where=w)

    # ---- configure
    KEYS = ("Conjunction", "Disjunction", "Implication", "Aggregation", "Defuzzifier", "Activation")

    def conf(I, cls, by, nb, no, before):
        V_ = Values(I, 400)
        e = make_engine(I, E(ab(2), [V("out%d" % (k + 1), enabled=k != 1, desc="d%d" % k, default="some", lockprev=k == 0) for k in range(no)],
                             [B("b%d" % k, R1[1:] if no > 1 else (), desc="e%d" % k, enabled=k != 1) for k in range(nb)]))
        if before:
            I.call(e, "configure", "AlgebraicProduct", "BoundedSum", "Minimum", "Maximum", "Bisector", "First")
        d0 = describe(I, e, ignore=IGN)
        if by == "name":
            I.call(e, "configure", *[c or "" for c in cls])
        else:
            I.call(e, "configure", *[I.make(c) if c else None for c in cls])
        got = {k: [] for k in KEYS}
        for b in blocks_of(I, e):
            for k in ("Conjunction", "Disjunction", "Implication", "Activation"):
                got[k].append(I.val(I.call(b, "get" + k)))
        for o in outs(I, e):
            for k in ("Aggregation", "Defuzzifier"):
                got[k].append(I.val(I.call(o, "get" + k)))
            if I.val(I.call(I.val(I.call(o, "fuzzyOutput")), "getAggregation")) is not got["Aggregation"][-1]:
                raise Violated("the aggregation of the output is not that of its fuzzy output")
        for k, c in zip(KEYS, cls):
            for j, x in enumerate(got[k]):
                if k == "Activation" and not c:
                    continue
                if (x is None) != (not c) or x is not None and x.dyn != FLN + c:
                    raise Violated("%s %d is %s, specified %s" % (k.lower(), j + 1, x and short(x.dyn), c or "none"))
            real = [x for x in got[k] if x is not None]
            if len({id(x) for x in real}) != len(real):
                raise Violated("%s is shared" % k.lower())
            for x in real:
                I.check_alive(x)
        no_leak(I, [e], "after configuring")
        d1 = describe(I, e, ignore=IGN)
        for d in (d0, d1):
            for k in list(d.out):
                if re.search(r"get(Conjunction|Disjunction|Implication|Aggregation|Defuzzifier|Activation)\b|toString|fuzzyOutput\W*\.parameters", k):
                    del d.out[k]
        if len(d0.out) < 20:
            raise Undecided("no description")
        return demand_same(d0, d1, "after configuring")
    sets = [("Minimum", "Maximum", "Minimum", "Maximum", "Centroid", "General"), ("AlgebraicProduct", "AlgebraicSum", "EinsteinProduct", "BoundedSum", "WeightedAverage", "Highest"),
            (None, None, None, None, None, None), ("Minimum", None, "HamacherProduct", None, "Bisector", None), (None, "NilpotentMaximum", None, "UnboundedSum", None, "Threshold"),
            ("DrasticProduct", "DrasticSum", "BoundedDifference", "HamacherSum", "WeightedSum", "Proportional")]
    for cls in sets:
        for by in ("name", "object"):
            for nb, no in ((0, 0), (1, 1), (2, 3), (3, 2)):
                for before in (False, True):
                    chk.obl("configure", "Engine::configure", "%s by %s, %d blocks, %d outputs%s" % (cls, by, nb, no, ", configured before" if before else ""),
                            lambda I, a=(cls, by, nb, no, before): conf(I, *a), where=chk.loc("Engine", "configure"))
    return "Interprets Engine::type over combinations of defuzzifiers, types, terms and implications, and Engine::configure over engines of several blocks and outputs."


def hash_of(*xs):
    return sum(ord(c) * (i + 1) for i, c in enumerate(str(xs)))


# --------------------------------------------------------------------------- C42
NUMBER = re.compile(r"-?\d+\.\d{12}(?!\d)")


def written(x, d):
    """Fixed notation with d decimals; magnitudes below one unit of the last decimal are zero."""
    if x != x:
        return "nan"
    if x in (INF, -INF):
        return "inf" if x > 0 else "-inf"
    return "%.*f" % (d, 0.0 if abs(x) < 10.0 ** -d else x)


def c42(chk):
    I, p = chk.I, chk.p
    chk.rule("format", "a number is written in fixed notation rounded to the decimals asked for, magnitudes below one unit of the last decimal as zero without sign, nan and the infinities by name; in other notations with that many digits")
    chk.rule("configured", "without arguments the configured decimals and notation are used, from the moment they are set, by single numbers, lists and parameters")
    chk.rule("exports", "every number of every exported text is written with the configured decimals, and nothing else of the text depends on them")
    chk.rule("meaning", "rules and names exported with any number of decimals are imported as they were")
    ST = FLN + "Operation::str"
    fd = next((f for f in p.byname.get(ST, ()) if f["params"][0]["t"] == "double"), None)
    if fd is None:
        raise AnalysisBroken("no Operation::str of numbers")
    w = "%s:%d" % (fd["file"], fd["l"])
    FIX, SCI = 4, 256

    def str_(I, x, *a):
        r = I.val(I.call_uid(fd["u"], None, [x] + list(a) + I.default_args(fd["u"], 1 + len(a))))
        return r.v if hasattr(r, "v") else r

    def is_(got, want, what):
        if got != want:
            raise Violated("%s is written %s, specified %s" % (what, show(got), show(want)))
    vals = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.001, 0.0011, -0.0011, 0.00099, -0.00099, 0.0001, 1e-9, -1e-9, 1e-10, 0.0625, 0.1234567, -0.1234567, 0.9995001, 0.9994, 999.9996, -999.9996, 1234567.891, 1e15, -1e15,
            123456789.123456789, 2.5, 3.5, 0.05, 0.25, 1.005, 100.0, 1e6, float("nan"), INF, -INF]
    for d in (0, 1, 2, 3, 4, 6, 9, 12, 15):
        for x in vals:
            if abs(abs(x) - 10.0 ** -d) < 1e-12 * 10.0 ** -d:
                continue
            for how in ("given", "set"):
                def f(I, x=x, d=d, how=how):
                    if how == "given":
                        got = str_(I, N.const(x) if x == x else N.NAN, d)
                    else:
                        I.scall(FLN + "fuzzylite::setDecimals", d)
                        got = str_(I, N.const(x) if x == x else N.NAN)
                    is_(got, written(x, d), repr(x))
                chk.obl("format" if how == "given" else "configured", "Operation::str", "%r with %d decimals %s" % (x, d, how), f, where=w)
    # an arbitrary number: the very number, fixed, with that many digits
    for d in (0, 1, 3, 6, 9):
        for lo, hi in ((1.5, 9.0), (-9.0, -1.5), (-200.0, -100.0), (1e3, 5e3)) + (((0.2, 0.9), (-0.9, -0.2)) if d else ()):
            for fl in (FIX, SCI, 0):
                for how in ("given", "set"):
                    def f(I, d=d, lo=lo, hi=hi, fl=fl, how=how):
                        x = opaque("number", lo, hi, lo=lo, hi=hi)
                        if how == "given":
                            t = str_(I, x, d, fl)
                        else:
                            I.scall(FLN + "fuzzylite::setDecimals", d)
                            I.scall(FLN + "fuzzylite::setScalarFormat", fl)
                            t = str_(I, x)
                        if len(t) != 1 or t not in I.atom_rev:
                            raise Violated("an arbitrary number is written as %s" % show(t))
                        s = same(I.atom_rev[t], x)
                        if s is False:
                            raise Violated("another number is written")
                        key = [k for k, c in I.atoms.items() if c == t][0]
                        if key[1] == "int" or key[1] not in ((fl,) if fl != 0 or how == "given" else (fl,)) or key[2] != d:
                            raise Violated("it is written in notation %s with %s digits, specified %s with %d" % (key[1], key[2], fl, d))
                        return True if s else None
                    chk.obl("format" if how == "given" else "configured", "Operation::str", "an arbitrary number in (%g, %g) with %d decimals, notation %d %s" % (lo, hi, d, fl, how), f, where=w)
    for d in (0, 2, 5):
        def f(I, d=d):
            I.scall(FLN + "fuzzylite::setDecimals", 7)
            xs = [1.23456, -0.5, 0.0, 1e-6, 100.0, INF]
            I.scall(FLN + "fuzzylite::setDecimals", d)
            j = next(f for f in p.byname[FLN + "Operation::join"] if "vector<double" in f["params"][0]["t"])
            g = I.val(I.call_uid(j["u"], None, [I.std.Vec([Cell(N.const(x)) for x in xs], "double"), I.std.SStr(" ")]))
            is_(g.v if hasattr(g, "v") else g, " ".join(written(x, d) for x in xs), "the list")
            t = I.make("Triangle", "t", N.const(1.23456), N.const(2.0), N.const(3.98765))
            is_(I.get(t, "parameters"), " ".join(written(x, d) for x in (1.23456, 2.0, 3.98765)), "the parameters")
            if I.val(I.scall(FLN + "fuzzylite::decimals")) != d:
                raise Violated("the decimals configured are not told")
        chk.obl("configured", "Operation::join", "a list and parameters with %d decimals" % d, f, where=w)

    # the parameters of every class, whose numbers are unknown
    for q in sorted(p.subclasses(FLN + "Term")) + sorted(p.subclasses(FLN + "Activation")):
        if not p.cls[q].file.startswith(("fuzzylite/", "src/")) or OB.short(q) in OB.NOT_REGISTERED:
            continue
        for d, fl in ((3, FIX), (6, FIX), (9, FIX), (1, FIX), (4, SCI)):
            def f(I, q=q, d=d, fl=fl):
                I.scall(FLN + "fuzzylite::setDecimals", d)
                I.scall(FLN + "fuzzylite::setScalarFormat", fl)
                o = I.make(q)
                OB.populate(I, o, Values(I, 20))
                t = I.get(o, "parameters")
                key = {c: k for k, c in I.atoms.items()}
                for c in t:
                    if c in key and key[c][1] != "int" and (key[c][1], key[c][2]) != (fl, d):
                        raise Violated("a parameter is written in notation %s with %s digits, specified %s with %d" % (key[c][1], key[c][2], fl, d))
            chk.obl("configured", OB.short(q) + "::parameters", "unknown parameters with %d decimals, notation %d" % (d, fl), f, where=chk.loc(OB.short(q), "parameters") or w)

    # ---- exports
    class Concrete:
        """Numbers with many decimals instead of unknown ones."""
        def __enter__(self):
            self.num = Values.num
            Values.num = lambda v: N.const(round(1.0 + (v.next() * 0.61803398875) % 7.0, 8))

        def __exit__(self, *a):
            Values.num = self.num
    every = [c for c in sorted(ARITY) if c != "Function"]
    spec = E([V("in1", [T(c, "t%d" % k, h="some" if k % 4 == 1 and c not in ("Constant", "Linear", "Discrete") else None) for k, c in enumerate(every)], lo=-1.12345678, hi=9.87654321), V("in2", [T("Ramp", "a"), T("Gaussian", "b")], lo=0.12345678, hi=3.00045678)],
             [V("out1", [T(c, "t%d" % k) for k, c in enumerate(every)] + [T("Function", "f", "in1 * 2.5 + in2")], default=3.14159265, lo=-2.71828182, hi=1e6, defuzz=("Bisector", 50)), V("out2", [T("Constant", "c"), T("Linear", "l")], defuzz=("WeightedSum", 1), aggregation=None, lo=-0.00045678, hi=0.00945678)],
             [B("", ("if in1 is very t1 and in2 is somewhat a then out1 is t2 with 0.5", "if in1 is any or in2 is not extremely b then out2 is c and out1 is seldom t3", "if in2 is seldom a then out2 is l with 0.125"),
                act=("First", (("setNumberOfRules", 3), ("setThreshold", "some"))))])
    fis_spec = E([V("in1", [T("Ramp", "t%d" % k) for k in range(12)], lo=-1.12345678, hi=9.87654321), V("in2", [T("Triangle", "a"), T("Gaussian", "b")], lo=0.12345678, hi=3.00045678)], [V("out1", [T("Ramp", "x"), T("Constant", "y")], lo=-INF, hi=INF), V("out2", [T("Linear", "l")], lo=-0.00045678, hi=0.00945678)],
                 [B("", ("if in1 is very t1 and in2 is somewhat a then out1 is x with 0.5", "if in1 is any and in2 is not extremely b then out1 is seldom y and out2 is l", "if in1 is somewhat t11 or in2 is not seldom a then out2 is l with 0.125",
                         "if in1 is extremely t9 and in2 is not any then out1 is very x", "if in1 is t11 then out1 is not x"))])
    KINDS_ = {"FLL": ("FllExporter", spec), "FCL": ("FclExporter", spec), "FIS": ("FisExporter", fis_spec), "C++": ("CppExporter", spec), "Java": ("JavaExporter", spec)}

    def raw(I, cls, s, d, fl=None):
        I.scall(FLN + "fuzzylite::setDecimals", d)
        if fl is not None:
            I.scall(FLN + "fuzzylite::setScalarFormat", fl)
        with Concrete():
            e = make_engine(I, s)
        t = exported(I, I.make(cls), e)
        return t.v if hasattr(t, "v") else t
    for fmt, (cls, s) in KINDS_.items():
        w2 = chk.loc(cls, "toString", 1)
        for d in (0, 1, 2, 3, 5, 6, 9, 11):
            def f(I, cls=cls, s=s, d=d, fmt=fmt):
                ref = raw(I, cls, s, 12)
                if len(NUMBER.findall(ref)) < 40:
                    raise Undecided("only %d numbers in the reference text" % len(NUMBER.findall(ref)))
                got = raw(I, cls, s, d).split("\n")
                rules = False
                for k, (a, b) in enumerate(itertools.zip_longest(got, ref.split("\n"))):
                    if a is None or b is None:
                        raise Violated("the text has another number of lines with %d decimals" % d)
                    rules = rules or b.startswith("[Rules]")
                    want = NUMBER.sub(lambda m: written(float(m.group()), d), b)
                    if fmt == "FIS" and rules:
                        want = {want, re.sub(r"\([^()]*\)", lambda m: NUMBER.sub(lambda n: written(float(n.group()), d), m.group()), NUMBER.sub(lambda m: written(float(m.group()), max(2, d)) if not m.string[m.start() - 1:m.start()] == "(" else m.group(), b))} if d >= 2 else \
                            {re.sub(r"\(([^()]*)\)", lambda m: "(" + written(float(m.group(1)), d) + ")", NUMBER.sub(lambda m: m.group() if m.string[m.start() - 1:m.start()] == "(" else written(float(m.group()), n), b)) for n in range(2, 13)}
                        if a not in want and b.strip() and b != "[Rules]":
                            raise Violated("line %d with %d decimals is %s, specified %s" % (k + 1, d, show(a), show(min(want, key=len))))
                        continue
                    if a != want:
                        raise Violated("line %d with %d decimals is %s, specified %s" % (k + 1, d, show(a), show(want)))
            chk.obl("exports", cls + "::toString", "%d decimals" % d, f, where=w2)
    for fmt in ("FLL", "FIS", "FCL"):
        cls, s = KINDS_[fmt]
        if fmt == "FCL":
            s = E(s.ins, s.outs, [B("", s.blocks[0].rules)])
        for d, fl in ((0, FIX), (1, FIX), (2, FIX), (3, FIX), (9, FIX), (3, SCI), (9, SCI), (1, SCI), (12, 0), (4, 0)):
            def f(I, cls=cls, s=s, d=d, fl=fl, fmt=fmt):
                I.scall(FLN + "fuzzylite::setDecimals", d)
                I.scall(FLN + "fuzzylite::setScalarFormat", fl)
                with Concrete():
                    e = make_engine(I, s)
                e2 = imported(I, importer(I, fmt), exported(I, exporter(I, fmt), e))
                for g in (lambda x: [I.get(r, "getText") for b in blocks_of(I, x) for r in (I.val(c) for c in I.get(b, "rules").x)],
                          lambda x: [I.get(v, "getName") for v in ins(I, x) + outs(I, x)],
                          lambda x: [I.get(I.call(v, "getTerm", k), "getName") for v in ins(I, x) + outs(I, x) for k in range(I.get(v, "numberOfTerms"))],
                          lambda x: [I.get(I.call(v, "getTerm", k), "className") for v in ins(I, x) + outs(I, x) for k in range(I.get(v, "numberOfTerms"))]):
                    a, b = [[t.v if hasattr(t, "v") else t for t in g(x)] for x in (e, e2)]
                    a, b = [[" ".join(re.sub(r" with [\d.e+-]+$", "", t).split()) for t in x] for x in (a, b)]
                    if a != b:
                        bad = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y][0]
                        raise Violated("%s becomes %s" % (show(bad[0]), show(bad[1])))
            chk.obl("meaning", cls + "::toString", "%d decimals, notation %d" % (d, fl), f, where=chk.loc(cls, "toString", 1))
    # datasets
    for d in (0, 1, 3, 6, 9):
        def f(I, d=d):
            I.scall(FLN + "fuzzylite::setDecimals", d)
            m = Machine(I, 2, 2)
            x = I.make("FldExporter", " ")
            o = Stream("ostringstream")
            invoke(I, x, "write", ["Engine *", "ostream", "istream"], m.e, o, Stream("istringstream", "1.23456789 -2.3456789\n0.00012345 -0.00045\n"))
            ls = [l.split() for l in o.buf.strip().split("\n")][1:]
            if len(ls) != 2 or any(len(l) != 4 for l in ls):
                raise Violated("the rows are %s" % show(o.buf))
            for l, r in zip(ls, ((1.23456789, -2.3456789), (0.00012345, -0.00045))):
                is_(l[:2], [written(v, d) for v in r], "a row")
                for c in l[2:]:
                    key = [k for k, a in I.atoms.items() if a == c]
                    if key and (key[0][1] != FIX or key[0][2] != d):
                        raise Violated("an output value is written in notation %s with %s digits" % key[0][1:])
        chk.obl("exports", "FldExporter::write", "%d decimals" % d, f, where=chk.loc("FldExporter", "write"), limit=256)
    return "Interprets Operation::str on arbitrary and on particular numbers, and the exporters on one engine with every number of decimals against the same text with twelve."
