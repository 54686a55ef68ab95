"""Observation of objects through their public queries; C19, C20, C22, C29, C30, C31, C33."""
import itertools, random
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool, UB, Cell, FnRef
from .fuzzy import World, expect, expect_throw, opaque, FLN
from .rules import fld

# queries that build a new object or a long text out of the others: nothing new is observed through them
DERIVED = {"clone", "toString", "what", "evaluate", "highestActivatedTerm", "maximallyActivatedTerms", "groupedTerms", "grouped", "results", "variables",
           "fuzzyValue", "fuzzyInputValue", "fuzzyOutputValue", "availableComparisonOperators", "toPrefix", "toInfix", "toPostfix", "meanSquaredError",
           "allErrors", "nonFiniteErrors", "accuracyErrors", "canComputeErrors", "value", "range", "isReady", "type", "x", "y"}


def queries(p, q, skip=DERIVED):
    """(name, uid, virtual) of the public parameterless const queries of class q."""
    out, seen = [], set()
    for cq in p.lin(q):
        c = p.cls.get(cq)
        for m in (c.methods if c else []):
            if m["kind"] == "m" and m["access"] == 0 and m["const"] and not m["static"] and m["rt"] != "void" and not any(not x["d"] for x in m["pt"]):
                if m["n"] in seen or m["n"] in skip or m["n"].startswith("operator"):
                    continue
                seen.add(m["n"])
                out.append((m["n"], m["u"], m["virt"]))
    return out


def data(p, q):
    """Names of the public data members."""
    return [f["n"] for cq, f in p.all_fields(q) if f["access"] == 0 and not f.get("static")]


class Description:
    def __init__(self, I, ext=None, skip=DERIVED, ignore=()):
        self.I, self.ext, self.skip, self.ignore = I, ext or {}, skip, set(ignore)
        self.out = {}
        self.num = {}
        self.keep = []

    def obj(self, path, o):
        I = self.I
        if id(o) in self.ext:
            self.out[path] = "@" + self.ext[id(o)]
            return
        if id(o) in self.num:
            self.out[path] = "same object as " + self.num[id(o)]
            return
        I.check_alive(o)
        self.num[id(o)] = path or "it"
        self.keep.append(o)
        self.out[path] = o.dyn
        for n, u, virt in queries(I.p, o.dyn, self.skip):
            if n in self.ignore:
                continue
            try:
                v = I.invoke(u, o, I.default_args(u), virt)
            except CppThrow as e:
                v = "throws " + (e.obj.cls if isinstance(e.obj, Obj) else str(e.obj))
                self.out[path + "." + n] = v
                continue
            self.value(path + "." + n, v)
        for n in data(I.p, o.cls):
            if n not in self.ignore:
                self.value(path + "." + n, o.get(n))

    def value(self, path, v):
        I = self.I
        S = I.std
        v = I.val(v)
        while v.__class__ is Cell:
            v = I.val(v)
        c = v.__class__
        if v is None or c in (Num, bool, int, float, str, UBool, FnRef):
            self.out[path] = v
        elif c is Obj:
            self.obj(path, v)
        elif c is S.UPtr:
            self.value(path, v.p)
        elif c is S.Vec or isinstance(v, S.Vec):
            self.out[path + "#"] = len(v.x)
            for i, x in enumerate(v.x):
                self.value("%s[%d]" % (path, i), x)
        elif c is S.Pair:
            self.value(path + ".first", v.first)
            self.value(path + ".second", v.second)
        elif c is S.MapO:
            self.out[path + "#"] = tuple(v.keys())
            for k in v.keys():
                x = v.d[k]
                self.value("%s[%r]" % (path, k), x.second if x.__class__ is S.Pair else x)
        else:
            raise Undecided("cannot describe %r at %s" % (v, path))


def describe(I, o, ext=None, skip=DERIVED, ignore=()):
    d = Description(I, ext, skip, ignore)
    d.obj("", o)
    return d


def differences(a, b, ignore=(), approx=True):
    """[(path, value in a, value in b)], whether every pair was decided."""
    out, sure = [], True
    for k in list(a.out) + [k for k in b.out if k not in a.out]:
        if any(k == i or k.endswith("." + i) for i in ignore):
            continue
        if k not in a.out or k not in b.out:
            out.append((k, a.out.get(k, "(absent)"), b.out.get(k, "(absent)")))
            continue
        x, y = a.out[k], b.out[k]
        if x is None or y is None or isinstance(x, (str, tuple, FnRef)) or isinstance(y, (str, tuple, FnRef)):
            r = x == y
        elif isinstance(x, UBool) or isinstance(y, UBool):
            r = isinstance(x, UBool) and isinstance(y, UBool) and x.tag == y.tag or None
        else:
            r = near(x, y)
        if r is False:
            out.append((k, x, y))
        elif r is None:
            sure = False
    return out, sure


def demand_same(a, b, what, ignore=()):
    d, sure = differences(a, b, ignore)
    if d:
        k, x, y = d[0]
        raise Violated("%s: %s is %s, specified %s%s" % (what, k.lstrip(".") or "the class", show(y), show(x), " (and %d more)" % (len(d) - 1) if len(d) > 1 else ""))
    return None if sure else False


def short(q):
    return q.replace(FLN, "")


# --------------------------------------------------------------------------- C22
KINDS = {
    "TNorm": ("tnorm", "TNormFactory", "className"), "SNorm": ("snorm", "SNormFactory", "className"), "Hedge": ("hedge", "HedgeFactory", "name"),
    "Activation": ("activation", "ActivationFactory", "className"), "Defuzzifier": ("defuzzifier", "DefuzzifierFactory", "className"),
    "Term": ("term", "TermFactory", "className"),
}
NOT_REGISTERED = {"Activated", "Aggregated", "TNormFunction", "SNormFunction", "HedgeFunction"}
# names of the FuzzyLite Language: they occur in every stored controller, so they are part of the guarantee
NAMES = {
    "TNorm": "AlgebraicProduct BoundedDifference DrasticProduct EinsteinProduct HamacherProduct Minimum NilpotentMinimum",
    "SNorm": "AlgebraicSum BoundedSum DrasticSum EinsteinSum HamacherSum Maximum NilpotentMaximum NormalizedSum UnboundedSum",
    "Hedge": "any extremely not seldom somewhat very",
    "Activation": "First General Highest Last Lowest Proportional Threshold",
    "Defuzzifier": "Bisector Centroid LargestOfMaximum MeanOfMaximum SmallestOfMaximum WeightedAverage WeightedSum",
    "Term": "Bell Binary Concave Constant Cosine Discrete Function Gaussian GaussianProduct Linear PiShape Ramp Rectangle SShape Sigmoid SigmoidDifference "
            "SigmoidProduct Spike Trapezoid Triangle ZShape",
}


def manager(I):
    return I.val(I.scall(FLN + "FactoryManager::instance"))


def c22(chk):
    I, p = chk.I, chk.p
    W = World(chk)
    chk.rule("register", "every concrete component class of the kind is registered under exactly the name it reports")
    chk.rule("construct", "constructing by a registered name yields a fresh object of the class of that name with its default settings")
    chk.rule("names", "the registered names are the documented ones, each maps to one class")
    chk.rule("empty", "the empty name yields no component; a name that is not registered raises an exception")
    chk.rule("edit", "registering, replacing and removing a name affects exactly that name")
    chk.rule("manager", "the manager hands out, replaces and copies the factory of the right kind")
    chk.rule("settings", "constructing a defuzzifier with settings applies them to the defuzzifiers that have them")
    chk.rule("formulas", "every function and operator is registered under the name it carries; cloning by name yields an equal, separate element")

    for kind, (getter, fac, namer) in KINDS.items():
        classes = [q for q in p.subclasses(FLN + kind) if short(q) not in NOT_REGISTERED and p.cls[q].file.startswith(("fuzzylite/", "src/"))]
        w = chk.loc(fac)
        if not classes:
            raise AnalysisBroken("no concrete subclasses of " + kind)
        for q in classes:
            def reg(I, q=q, getter=getter, namer=namer):
                f = I.get(manager(I), getter)
                n = I.get(I.make(q), namer)
                if not I.truth(I.val(I.call(f, "hasConstructor", n))):
                    raise Violated("%s reports the name %r, which is not registered" % (short(q), n))
                if n not in names_of(I, f):
                    raise Violated("the list of available names lacks %r" % n)
            chk.obl("register", fac, short(q), reg, where=w)

            def con(I, q=q, getter=getter, namer=namer, kind=kind):
                f = I.get(manager(I), getter)
                fresh = I.make(q)
                n = I.get(fresh, namer)
                o = I.get(f, "constructObject", n)
                if not isinstance(o, Obj) or o.dyn != q:
                    raise Violated("constructing %r yields %s, not a %s" % (n, show(o), short(q)))
                if o not in I.heap:
                    raise Violated("constructing %r yields an object that its receiver cannot own" % n)
                o2 = I.get(f, "constructObject", n)
                if o2 is o:
                    raise Violated("constructing %r twice yields the same object" % n)
                return demand_same(describe(I, fresh), describe(I, o), "the %s constructed by name" % n)
            chk.obl("construct", fac, short(q), con, where=w)

            def con2(I, con=con):
                I.scall(FLN + "IntegralDefuzzifier::setDefaultResolution", 57)
                I.scall(FLN + "fuzzylite::setDecimals", 6)
                I.scall(FLN + "fuzzylite::setMachEps", 1e-4)
                return con(I)
            chk.obl("construct", fac, short(q) + " under other global settings", con2, where=w)

        def nm(I, getter=getter, kind=kind):
            f = I.get(manager(I), getter)
            got = sorted(n for n in names_of(I, f) if n)
            want = sorted(NAMES[kind].split())
            lost = [n for n in want if n not in got]
            if lost:
                raise Violated("the documented names %s are not registered" % lost)
            by = {}
            for n in got:
                o = I.get(f, "constructObject", n)
                if not isinstance(o, Obj):
                    raise Violated("the name %r yields no component" % n)
                if o.dyn in by and n in want and by[o.dyn] in want:
                    raise Violated("the names %r and %r both yield %s" % (by[o.dyn], n, short(o.dyn)))
                by[o.dyn] = n
        chk.obl("names", fac, "all", nm, where=w)

        def emp(I, getter=getter):
            f = I.get(manager(I), getter)
            if I.get(f, "constructObject", "") is not None:
                raise Violated("the empty name yields a component")
            for bad in ("NoSuchThing", " ", "minimum", "Minimum ", "ANY", "triangle"):
                if bad in names_of(I, f):
                    continue
                expect_throw(I, lambda: I.call(f, "constructObject", bad), "constructing %r" % bad)
                if I.truth(I.val(I.call(f, "hasConstructor", bad))) or I.get(f, "getConstructor", bad) is not None:
                    raise Violated("%r is reported as registered" % bad)
        chk.obl("empty", fac, "all", emp, where=w)

        def edit(I, getter=getter, fac=fac, kind=kind):
            f = I.make(fac)
            before = list(names_of(I, f))
            a, b = NAMES[kind].split()[:2]
            ca, cb = I.get(f, "getConstructor", a), I.get(f, "getConstructor", b)
            if ca == cb:
                raise Violated("%s and %s have the same constructor" % (a, b))
            I.call(f, "registerConstructor", "custom", ca)
            if sorted(names_of(I, f)) != sorted(before + ["custom"]):
                raise Violated("after registering 'custom' the names are %s" % names_of(I, f))
            if I.get(f, "constructObject", "custom").dyn != I.get(f, "constructObject", a).dyn:
                raise Violated("the name 'custom' does not yield the registered class")
            I.call(f, "registerConstructor", "custom", cb)
            if I.get(f, "constructObject", "custom").dyn != I.get(f, "constructObject", b).dyn:
                raise Violated("registering 'custom' again does not replace the class")
            I.call(f, "deregisterConstructor", "custom")
            I.call(f, "deregisterConstructor", "custom")
            if sorted(names_of(I, f)) != sorted(before):
                raise Violated("after removing 'custom' the names are %s" % names_of(I, f))
            expect_throw(I, lambda: I.call(f, "constructObject", "custom"), "constructing a removed name")
            I.call(f, "deregisterConstructor", a)
            if sorted(names_of(I, f)) != sorted(n for n in before if n != a):
                raise Violated("removing %r leaves the names %s" % (a, names_of(I, f)))
            c = I.val(I.call(f, "clone"))
            if c is f or c.dyn != f.dyn or I.get(c, "name") != I.get(f, "name") or sorted(names_of(I, c)) != sorted(names_of(I, f)):
                raise Violated("the clone of the factory differs from it")
            if I.get(c, "getConstructor", b) != cb:
                raise Violated("the clone of the factory has another constructor for %r" % b)
            I.call(c, "deregisterConstructor", b)
            if b not in names_of(I, f):
                raise Violated("removing a name from a clone removes it from the factory")
        chk.obl("edit", fac, "all", edit, where=w)

    # the factory of operators and functions, which clones what is registered
    def texts(I, v):
        return sorted(x.v if hasattr(x, "v") else x for x in (I.val(c) for c in I.val(v).x))

    def objs(I):
        w = chk.loc("CloningFactory", "registerObject")
        f = I.make("FunctionFactory")
        before = texts(I, I.call(f, "available"))
        if len(before) < 20 or "sin" not in before or "cos" not in before:
            raise Violated("the operators and functions are %s" % before)
        sin, cos = I.get(f, "getObject", "sin"), I.get(f, "getObject", "cos")
        for n in ("custom", "sin"):
            for of in ("cos", "exp"):
                new = I.get(f, "cloneObject", of)
                I.call(f, "registerObject", n, new)
                if I.get(f, "getObject", n) is not new or not new.alive:
                    raise Violated("registered as %r, another object than the registered one is found" % n)
                c = I.get(f, "cloneObject", n)
                if c is new or demand_same(describe(I, new), describe(I, c), "the clone of what is registered as %r" % n) is False:
                    raise Violated("cloning %r yields the registered object itself" % n)
                if texts(I, I.call(f, "available")) != sorted(set(before) | {"custom"}):
                    raise Violated("after registering %r the names are others" % n)
                I.delete(c)
        if I.get(f, "getObject", "cos") is not cos:
            raise Violated("registering other names changes cos")
        for k in range(2):
            I.call(f, "deregisterObject", "custom")
            if I.truth(I.val(I.call(f, "hasObject", "custom"))) or I.get(f, "getObject", "custom") is not None or texts(I, I.call(f, "available")) != before:
                raise Violated("a removed name is still known")
        expect_throw(I, lambda: I.call(f, "cloneObject", "custom"), "cloning a removed name")
        expect_throw(I, lambda: I.call(f, "cloneObject", ""), "cloning the empty name")
        ops_, fns = texts(I, I.call(f, "availableOperators")), texts(I, I.call(f, "availableFunctions"))
        if sorted(ops_ + fns) != before:
            raise Violated("operators and functions together are not all that is registered")
        for n in before:
            o = I.get(f, "getObject", n)
            if I.truth(I.val(I.call(o, "isOperator"))) != (n in ops_) or I.truth(I.val(I.call(o, "isFunction"))) != (n in fns):
                raise Violated("%r is listed among the wrong kind" % n)
        I.call(f, "clear")
        if texts(I, I.call(f, "available")) or I.truth(I.val(I.call(f, "hasObject", "cos"))):
            raise Violated("a cleared factory has objects")
        return None
    chk.obl("edit", "FunctionFactory", "objects", objs, where=chk.loc("CloningFactory", "registerObject"))

    ALL = {k: (g, fc) for k, (g, fc, _) in KINDS.items()}
    ALL["Function"] = ("function", "FunctionFactory")
    for kind, (getter, fac) in ALL.items():
        def man(I, getter=getter, fac=fac):
            m = manager(I)
            if manager(I) is not m:
                raise Violated("two requests for the manager yield different managers")
            f = I.get(m, getter)
            if not isinstance(f, Obj) or not p.is_a(f.dyn, FLN + fac):
                raise Violated("%s() hands out %s" % (getter, show(f)))
            if getter == "function":
                return
            own = I.make("FactoryManager")
            others = {g: I.get(own, g) for g, _ in ALL.values() if g != getter}
            nf = I.make(fac)
            I.call(nf, "registerConstructor", "custom", I.get(nf, "getConstructor", ""))
            I.call(own, "set" + getter[0].upper() + getter[1:], nf)
            if I.get(own, getter) is not nf:
                raise Violated("a replaced factory is not the one handed out")
            for g, o in others.items():
                if I.get(own, g) is not o:
                    raise Violated("replacing the %s factory changes %s()" % (getter, g))
        chk.obl("manager", "FactoryManager", getter, man, where=chk.loc("FactoryManager", getter))

        def cpy(I, getter=getter, fac=fac, how="clone"):
            src = I.make("FactoryManager")
            f = I.get(src, getter)
            if getter == "function":
                I.call(f, "deregisterObject", "sin")
                gone = "sin"
            else:
                gone = [n for n in names_of(I, f) if n][0]
                I.call(f, "deregisterConstructor", gone)
            if how == "clone":
                c = I.val(I.call(src, "clone"))
            elif how == "copy":
                c = I.make("FactoryManager", src)
            else:
                c = I.make("FactoryManager")
                I.call(c, "operator=", src)
            g = I.get(c, getter)
            if not isinstance(g, Obj) or not p.is_a(g.dyn, FLN + fac):
                raise Violated("the copy hands out %s as %s()" % (show(g), getter))
            if g is f:
                raise Violated("the copy shares the %s factory with its source" % getter)
            if sorted(names_of(I, g)) != sorted(names_of(I, f)) or gone in names_of(I, g):
                raise Violated("the %s factory of the copy has the names %s instead of %s" % (getter, names_of(I, g), names_of(I, f)))
            I.delete(src)
            I.delete(c)
        for how in ("clone", "copy", "assign"):
            chk.obl("manager", "FactoryManager", getter + " " + how, lambda I, cpy=cpy, how=how: cpy(I, how=how), where=chk.loc("FactoryManager", "copyFrom"))

    types = {e: v for e, v in p.enums[FLN + "WeightedDefuzzifier::Type"]["values"].items()} if isinstance(p.enums.get(FLN + "WeightedDefuzzifier::Type", {}).get("values"), dict) else None
    for n in NAMES["Defuzzifier"].split():
        def st(I, n=n):
            f = I.make("DefuzzifierFactory")
            for t in (0, 1, 2):
                o = I.get(f, "constructDefuzzifier", n, 123 + t, t)
                if o.dyn != FLN + n:
                    raise Violated("constructing %r yields %s" % (n, show(o)))
                if p.is_a(o.dyn, FLN + "IntegralDefuzzifier") and I.get(o, "getResolution") != 123 + t:
                    raise Violated("the resolution of the %s is %s, requested %d" % (n, show(I.get(o, "getResolution")), 123 + t))
                if p.is_a(o.dyn, FLN + "WeightedDefuzzifier") and I.get(o, "getType") != t:
                    raise Violated("the type of the %s is %s, requested %d" % (n, show(I.get(o, "getType")), t))
            if p.is_a(FLN + n, FLN + "IntegralDefuzzifier"):
                o = I.get(f, "constructIntegral", n, 77)
                if o.dyn != FLN + n or I.get(o, "getResolution") != 77:
                    raise Violated("constructIntegral(%r, 77) yields %s with resolution %s" % (n, show(o), show(I.get(o, "getResolution"))))
            else:
                for t in (0, 1, 2):
                    o = I.get(f, "constructWeighted", n, t)
                    if o.dyn != FLN + n or I.get(o, "getType") != t:
                        raise Violated("constructWeighted(%r, %d) yields %s of type %s" % (n, t, show(o), show(I.get(o, "getType"))))
        chk.obl("settings", "DefuzzifierFactory", n, st, where=chk.loc("DefuzzifierFactory", "constructDefuzzifier"))

    FUN = "abs acos asin atan atan2 ceil cos cosh eq exp fabs floor fmod ge gt le log log10 lt max min neq pow round sin sinh sqrt tan tanh".split()
    OPS = "! ~ ^ * / % + - and or".split()
    for n in FUN + OPS:
        def fu(I, n=n):
            f = I.get(manager(I), "function")
            if not I.truth(I.val(I.call(f, "hasObject", n))):
                raise Violated("%r is not registered" % n)
            e = I.get(f, "getObject", n)
            if fld(I, e, "name") != n:
                raise Violated("the element registered as %r is called %r" % (n, fld(I, e, "name")))
            isop = I.truth(I.val(I.call(e, "isOperator")))
            if isop != (n in OPS) or I.truth(I.val(I.call(e, "isFunction"))) == isop:
                raise Violated("%r is not %s" % (n, "an operator" if n in OPS else "a function"))
            lo, lf = [[I.val(x) for x in I.val(I.call(f, m)).x] for m in ("availableOperators", "availableFunctions")]
            if (n in lo) != isop or (n in lf) == isop:
                raise Violated("%r is listed as an operator: %s, as a function: %s" % (n, n in lo, n in lf))
            c = I.get(f, "cloneObject", n)
            if c is e:
                raise Violated("cloning %r yields the registered element itself" % n)
            return demand_same(describe(I, e), describe(I, c), "the clone of " + n)
        chk.obl("formulas", "FunctionFactory", n, fu, where=chk.loc("FunctionFactory"))

    def fedit(I):
        f = I.make("FunctionFactory")
        before = names_of(I, f)
        for bad in ("nosuch", "", "SIN", "&&"):
            expect_throw(I, lambda: I.call(f, "cloneObject", bad), "cloning %r" % bad)
            if I.truth(I.val(I.call(f, "hasObject", bad))) or I.get(f, "getObject", bad) is not None:
                raise Violated("%r is reported as registered" % bad)
        e = I.get(f, "cloneObject", "sin")
        I.call(f, "registerObject", "custom", e)
        if I.get(f, "getObject", "custom") is not e or sorted(names_of(I, f)) != sorted(before + ["custom"]):
            raise Violated("after registering 'custom' the names are %s" % names_of(I, f))
        I.call(f, "deregisterObject", "custom")
        I.call(f, "deregisterObject", "custom")
        if e.alive:
            raise Violated("deregistering an element does not release it")
        if sorted(names_of(I, f)) != sorted(before):
            raise Violated("after removing 'custom' the names are %s" % names_of(I, f))
        c = I.val(I.call(f, "clone"))
        if c.dyn != f.dyn or sorted(names_of(I, c)) != sorted(before) or I.get(c, "name") != I.get(f, "name"):
            raise Violated("the clone of the factory differs from it")
        I.call(c, "clear")
        if names_of(I, c) or sorted(names_of(I, f)) != sorted(before):
            raise Violated("clearing a clone leaves names in it or removes them from its source")
    chk.obl("edit", "FunctionFactory", "all", fedit, where=chk.loc("FunctionFactory"))
    return ("Interprets the construction of every factory and the manager, and resolves every registered constructor to the class it instantiates; the set of classes is taken "
            "from the class hierarchy of the resolved program, so a class without a registration or a registration of another class is reported.")


def names_of(I, f):
    return [I.val(x) for x in I.val(I.call(f, "available")).x]


# --------------------------------------------------------------------------- settable attributes
GETTER = {"setExportHeader": "exportsHeader", "setExportInputValues": "exportsInputValues", "setExportOutputValues": "exportsOutputValues"}
SYNONYM = {("Activated", "setDegree"): "getHeight", ("Activated", "setHeight"): "getDegree"}     # the degree of an activated term is its height
NOT_ATTR = {("Activated", "setName"),            # an activated term reports the name of its term
            ("Antecedent", "setExpression"), ("Rule", "setAntecedent"), ("Rule", "setConsequent")}
DOUBLE, STRING = "double", "std::basic_string<char"


def settables(p, q):
    """[(setter, method, getter)] of class q: one-argument public setters that have a matching query."""
    out, seen = [], set()
    qs = {n for n, _, _ in queries(p, q, ())}
    for cq in p.lin(q):
        c = p.cls.get(cq)
        for m in (c.methods if c else []):
            n = m["n"]
            if m["kind"] != "m" or m["access"] != 0 or m["const"] or m["static"] or len(m["pt"]) != 1 or not n.startswith("set") or len(n) < 4 or not n[3].isupper():
                continue
            if n in seen or any((short(x), n) in NOT_ATTR for x in p.lin(q)):
                continue
            b = n[3:]
            for g in (GETTER.get(n), "get" + b, "is" + b, b[0].lower() + b[1:], b.lower()):
                if g in qs:
                    break
            else:
                continue
            # a setter that takes the name of an enumerator is an alternative spelling of the one that takes the enumerator
            alt = [m2 for cq2 in p.lin(q) for m2 in (p.cls[cq2].methods if cq2 in p.cls else []) if m2["n"] == n and m2["u"] != m["u"] and len(m2["pt"]) == 1]
            if STRING in m["pt"][0]["t"] and any(STRING not in a["pt"][0]["t"] for a in alt):
                continue
            seen.add(n)
            out.append((n, m, g))
    return out


FORMULAS = ["x+1", "x*0.5", "a+b"]


class Values:
    """Fresh distinct values by C++ type; owns the environment objects they refer to."""

    def __init__(self, I, seed=0):
        self.I, self.k = I, seed

    def next(self):
        self.k += 1
        return self.k

    def num(self):
        return opaque("attribute", self.next())

    def text(self):
        return "text %d" % self.next()

    def component(self, q):
        I, k = self.I, self.next()
        p = I.p
        if p.cls[q].abstract:
            sub = [s for s in p.subclasses(q) if short(s) not in NOT_REGISTERED and p.cls[s].file.startswith(("fuzzylite/", "src/"))]
            if q == FLN + "Term":
                sub = [FLN + "Triangle", FLN + "Ramp", FLN + "Gaussian", FLN + "Discrete"]
            q = sub[k % len(sub)]
        o = I.make(q)
        if any(m["n"] == "setName" for _, m in p.methods(q, "setName", 1)):
            I.call(o, "setName", "name%d" % k)
        return o

    def of(self, t, setter="", j=0):
        """(value, is a list of components)"""
        I = self.I
        t = t.replace("const ", "").replace(" const", "").rstrip("& ").strip()
        if t in ("double", "float"):
            return self.num()
        if t == "bool":
            return None
        if t in ("int", "unsigned long", "long"):
            return 3 + self.next()
        if t.startswith(STRING):
            return FORMULAS[self.next() % 2] if "Formula" in setter else self.text()
        if t.endswith("*"):
            return self.component(t[:-1].strip())
        if t in I.p.enums:
            vs = [int(c["v"]) for c in I.p.enums[t]["c"]]
            return vs[self.next() % len(vs)]
        if t.startswith("std::vector<"):
            from flai.interp import template_args
            et = template_args(t)[0].strip()
            n = 2 + self.next() % 2
            if et.startswith("std::pair"):
                return [I.std.Pair(Cell(self.num()), Cell(self.num())) for _ in range(n)]
            if et == FLN + "Activated":
                return [I.make("Activated", self.component(FLN + "Term"), self.num(), None, heap=False) for _ in range(n)]
            return [self.of(et) for _ in range(n)]
        raise Undecided("no value for type " + t)


def as_arg(I, v, t):
    """Pass python lists as vectors."""
    if isinstance(v, list):
        from flai.interp import template_args
        et = template_args(t.replace("const ", "").rstrip("& "))[0].strip()
        xs = []
        for x in v:
            if isinstance(x, list):
                xs.append(as_arg(I, x, et))
            elif isinstance(x, str):
                xs.append(I.std.SStr(x))
            elif x.__class__ is I.std.Pair:
                xs.append(x)
            elif x.__class__ is Obj and not et.endswith("*"):
                xs.append(x)
            else:
                xs.append(Cell(x))
        return I.std.Vec(xs, et)
    return v


def set_by(I, o, m, v):
    return I.invoke(m["u"], o, [I.coerce(as_arg(I, v, m["pt"][0]["t"]), m["pt"][0]["t"])], m["virt"])


def query(I, o, g):
    for n, u, virt in queries(I.p, o.dyn, ()):
        if n == g:
            return I.invoke(u, o, I.default_args(u), virt)
    for n in data(I.p, o.cls):
        if n == g:
            return o.get(n)
    raise Undecided("%s has no query %s" % (o.cls, g))


def agrees(I, got, v):
    """Does the value a query returned equal v?"""
    got = I.val(got)
    while got.__class__ is Cell:
        got = I.val(got)
    if isinstance(v, list):
        if not isinstance(got, I.std.Vec):
            return False
        if len(got.x) != len(v):
            return False
        r = True
        for a, b in zip(got.x, v):
            s = agrees(I, a, b)
            if s is False:
                return False
            r = r and s
        return r
    if v.__class__ is I.std.Pair:
        if got.__class__ is not I.std.Pair:
            return False
        a, b = agrees(I, got.first, v.first.v), agrees(I, got.second, v.second.v)
        return False if a is False or b is False else a and b
    if isinstance(v, Obj):
        if got is v:
            return True
        if isinstance(got, Obj) and v.cls == FLN + "Activated" and got.cls == v.cls:
            return not differences(describe(I, v), describe(I, got))[0]
        return False
    if isinstance(got, UBool) or isinstance(v, UBool):
        return isinstance(got, UBool) and isinstance(v, UBool) and got.tag == v.tag
    return same(got, v)


def values_of(I, o, props):
    return {g: I.val(query(I, o, g)) for _, _, g in props}


def unchanged(I, before, after):
    if isinstance(before, I.std.Vec) and isinstance(after, I.std.Vec):
        return True if before is after else len(before.x) == len(after.x) and all(unchanged(I, I.val(a), I.val(b)) is not False for a, b in zip(before.x, after.x))
    if before.__class__ is I.std.Pair:
        return unchanged(I, I.val(before.first), I.val(after.first)) and unchanged(I, I.val(before.second), I.val(after.second))
    if isinstance(before, Obj):
        return before is after or (isinstance(after, Obj) and before.cls == FLN + "Activated" and not differences(describe(I, before), describe(I, after))[0])
    if isinstance(before, UBool):
        return isinstance(after, UBool) and before.tag == after.tag
    return same(before, after)


def snapshot(I, v):
    """A copy of a query's result that later changes do not touch."""
    if isinstance(v, I.std.Vec):
        return I.std.Vec([snapshot(I, x) if not isinstance(I.val(x), Obj) or I.val(x).cls != FLN + "Activated" else x for x in v.x], v.t if hasattr(v, "t") else "")
    if v.__class__ is Cell:
        return Cell(I.read(v))
    return v


def populate(I, o, V, flags=True):
    """Give every settable attribute of o a distinct value; {getter: value}."""
    out = {}
    for n, m, g in settables(I.p, o.dyn):
        t = m["pt"][0]["t"]
        v = V.of(t, n)
        if v is None:
            cur = I.val(query(I, o, g))
            v = not I.truth(cur)
        set_by(I, o, m, v)
        out[g] = v
    return out


# classes whose constructor arguments are attributes: the queries they reach, in order (a leading * marks a public data member)
CTOR = {
    "InputVariable": ["getName", "getMinimum", "getMaximum", "terms"], "OutputVariable": ["getName", "getMinimum", "getMaximum", "terms"],
    "Variable": ["getName", "getMinimum", "getMaximum", "terms"],
    "Rule": ["getText", "getWeight"], "RuleBlock": ["getName", "rules", "getActivation", "getConjunction", "getDisjunction", "getImplication"],
    "Engine": ["getName", "getDescription", "inputVariables", "outputVariables", "ruleBlocks"],
    "First": ["getNumberOfRules", "getThreshold"], "Last": ["getNumberOfRules", "getThreshold"], "Highest": ["getNumberOfRules"], "Lowest": ["getNumberOfRules"],
    "Threshold": ["getComparison", "getValue"],
    "Bisector": ["getResolution"], "Centroid": ["getResolution"], "LargestOfMaximum": ["getResolution"], "MeanOfMaximum": ["getResolution"],
    "SmallestOfMaximum": ["getResolution"], "WeightedAverage": ["getType"], "WeightedSum": ["getType"],
    "FllExporter": ["getIndent", "getSeparator"], "FclExporter": ["getIndent"], "FldExporter": ["getSeparator"], "FllImporter": ["getSeparator"],
    "CppExporter": ["isUsingNamespace", "isUsingVariableNames"], "JavaExporter": ["isUsingVariableNames"],
    "Activated": ["getTerm", "getDegree", "getImplication"], "Aggregated": ["getName", "getMinimum", "getMaximum", "getAggregation", "terms"],
    "Linear": ["getName", "coefficients", "getEngine"], "Discrete": ["getName", "xy", "getHeight"], "Constant": ["getName", "getValue"],
    "HedgeFunction": ["getFormula", "name"], "TNormFunction": ["getFormula"], "SNormFunction": ["getFormula"],
    "Benchmark": ["getName", "getEngine", "getTolerance"], "Exception": ["getWhat"],
    "FactoryManager": ["tnorm", "snorm", "activation", "defuzzifier", "term", "hedge", "function"],
    "Function::Element": ["name", "description", "type"], "Console::Option": ["key", "value", "description"],
}
from .terms import TERMS
for _c, _t in TERMS.items():
    CTOR[_c] = ["getName"] + ["get" + a[0].upper() + a[1:] for a in _t[0]] + ["getHeight"]
# attributes a default-constructed component starts with
NAN, TRUE, FALSE = N.NAN, True, False
DEFAULTS = {
    "InputVariable": {"isEnabled": True, "isLockValueInRange": False, "getValue": NAN, "getDescription": "", "getName": "", "numberOfTerms": 0},
    "OutputVariable": {"isEnabled": True, "isLockValueInRange": False, "isLockPreviousValue": False, "getValue": NAN, "getPreviousValue": NAN,
                       "getDefaultValue": NAN, "getDescription": "", "getAggregation": None, "getDefuzzifier": None, "numberOfTerms": 0},
    "Rule": {"isEnabled": True, "getWeight": 1.0, "getActivationDegree": 0.0, "isTriggered": False, "isLoaded": False, "getText": ""},
    "RuleBlock": {"isEnabled": True, "getDescription": "", "getConjunction": None, "getDisjunction": None, "getImplication": None, "numberOfRules": 0},
    "Engine": {"getName": "", "getDescription": "", "numberOfInputVariables": 0, "numberOfOutputVariables": 0, "numberOfRuleBlocks": 0},
    "FldExporter": {"exportsHeader": True, "exportsInputValues": True, "exportsOutputValues": True},
    "FllExporter": {"getIndent": "  ", "getSeparator": "\n"}, "FllImporter": {"getSeparator": "\n"},
    "Aggregated": {"numberOfTerms": 0, "getAggregation": None, "getHeight": 1.0},
    "First": {"getNumberOfRules": 1, "getThreshold": 0.0}, "Last": {"getNumberOfRules": 1, "getThreshold": 0.0}, "Highest": {"getNumberOfRules": 1},
    "Lowest": {"getNumberOfRules": 1}, "Function": {"isLoaded": False, "getFormula": "", "getEngine": None, "getHeight": 1.0},
    "WeightedAverage": {"getType": 0}, "WeightedSum": {"getType": 0},
}
for _c in TERMS:
    DEFAULTS[_c] = {"getHeight": 1.0, "getName": ""}
# what else a setter is meant to reach
MIRROR = {("OutputVariable", "setName"): [("fuzzyOutput", "getName")], ("OutputVariable", "setMinimum"): [("fuzzyOutput", "getMinimum")],
          ("OutputVariable", "setMaximum"): [("fuzzyOutput", "getMaximum")], ("OutputVariable", "setAggregation"): [("fuzzyOutput", "getAggregation")]}


def concrete(p):
    """Concrete library classes with a default constructor."""
    out = []
    for q, c in sorted(p.cls.items()):
        if not q.startswith(FLN) or c.abstract or c.py or "@" in q or "<" in q or not c.file.startswith(("fuzzylite/", "src/")):
            continue
        ct = [m for m in c.methods if m["kind"] == "ctor" and m["access"] == 0 and not m.get("copy") and not m.get("move")]
        if any(not any(not x["d"] for x in m["pt"]) for m in ct):
            out.append(q)
    return out


def c29(chk):
    I, p = chk.I, chk.p
    chk.rule("set", "after calling a setter with any value the corresponding query returns that value")
    chk.rule("only", "a setter changes no other settable attribute, from a state in which every attribute has a distinct value")
    chk.rule("mirror", "setting name, range or aggregation of an output variable reaches its fuzzy output")
    chk.rule("constructor", "each constructor argument is the initial value of its attribute")
    chk.rule("default", "attributes that are not given start with their documented defaults")
    chk.rule("builder", "the fluent builders have the effect of the setters and return the object itself")
    chk.rule("spelling", "alternative spellings of an attribute (enumerator names, comparison symbols, range of both ends) set it")
    count = 0
    for q in concrete(p):
        props = settables(p, q)
        for n, m, g in props:
            count += 1
            t = m["pt"][0]["t"]
            w = chk.loc(q, n, 1)
            tt = t.replace("const ", "").rstrip("& ")
            cases = ["value"] + (["undefined", "infinite"] if tt == "double" else ["true", "false"] if tt == "bool" else ["empty"] if tt.startswith((STRING, "std::vector")) and "Formula" not in n
                                 else ["none"] if tt.endswith("*") else ["zero", "negative"] if tt == "int" else [])
            if tt == "bool":
                cases = ["true", "false"]
            if tt in p.enums:
                cases = [c["n"] for c in p.enums[tt]["c"]]
            for case in cases:
                def scen(I, q=q, n=n, m=m, g=g, t=t, case=case, props=props):
                    V = Values(I, 100)
                    o = I.make(q)
                    populate(I, o, V)
                    if case == "value":
                        v = V.of(t, n)
                    elif case in ("undefined", "infinite"):
                        v = N.NAN if case == "undefined" else N.const(INF)
                    elif case in ("true", "false"):
                        v = case == "true"
                    elif case == "empty":
                        v = "" if t.replace("const ", "").startswith(STRING) else []
                    elif case == "none":
                        v = None
                    elif case in ("zero", "negative"):
                        v = 0 if case == "zero" else -7
                    else:
                        v = next(int(c["v"]) for c in p.enums[t]["c"] if c["n"] == case)
                    if n == "setValue" and p.is_a(q, FLN + "Variable"):
                        I.call(o, "setLockValueInRange", False)      # clipping is the subject of C07
                    before = {k: snapshot(I, x) for k, x in values_of(I, o, props).items()}
                    set_by(I, o, m, v)
                    r = agrees(I, query(I, o, g), v)
                    if r is False:
                        raise Violated("after %s(%s), %s() is %s" % (n, show(v), g, show(I.val(query(I, o, g)))))
                    after = values_of(I, o, props)
                    for k in before:
                        if k not in (g, SYNONYM.get((short(q), n))) and unchanged(I, before[k], after[k]) is False:
                            raise Violated("%s also changes %s() from %s to %s" % (n, k, show(before[k]), show(after[k])))
                    for path in MIRROR.get((short(q), n), ()):
                        x = o
                        for s in path:
                            x = I.val(query(I, x, s))
                        if agrees(I, x, v) is False:
                            raise Violated("after %s(%s), %s is %s" % (n, show(v), "().".join(path), show(x)))
                    return None if r else False
                chk.obl("mirror" if (short(q), n) in MIRROR else "set", short(q) + "::" + n, case, scen, where=w)
    if count < 150:
        raise AnalysisBroken("only %d setters with a query were found" % count)

    for c, gs in CTOR.items():
        q = FLN + c
        if q not in p.cls:
            raise AnalysisBroken("no class " + c)
        ct = [m for m in p.cls[q].methods if m["kind"] == "ctor" and m["access"] == 0 and not m.get("copy") and not m.get("move") and len(m["pt"]) >= len(gs)
              and not any(STRING in x["t"] and c in ("Threshold", "WeightedAverage", "WeightedSum") for x in m["pt"])]
        if not ct:
            raise AnalysisBroken("%s has no constructor with %d arguments" % (c, len(gs)))
        m = sorted(ct, key=lambda m: len(m["pt"]))[0]
        for upto in range(1, len(gs) + 1):
            if any(not x["d"] for x in m["pt"][upto:]):
                continue
            if upto < len(gs) and c in ("Triangle", "Trapezoid", "Engine"):
                continue                  # missing vertices are derived from the given ones
            def scen(I, q=q, c=c, gs=gs, m=m, upto=upto):
                V = Values(I, 300)
                vals = []
                for x, g in zip(m["pt"][:upto], gs):
                    v = V.of(x["t"], "setFormula" if g == "getFormula" else "")
                    if v is None:
                        v = I.truth(UBool("argument " + g))
                    vals.append(v)
                o = I.new_object(q, m["u"], [I.coerce(as_arg(I, v, x["t"]), x["t"]) for v, x in zip(vals, m["pt"])])
                ok = True
                for g, v in zip(gs, vals):
                    r = agrees(I, query(I, o, g), v)
                    if r is False:
                        raise Violated("constructed with %s, %s is %s" % (show(v), g, show(I.val(query(I, o, g)))))
                    ok = ok and r
                if c == "OutputVariable":
                    f = I.val(query(I, o, "fuzzyOutput"))
                    for g, v in list(zip(gs, vals))[:3]:
                        if agrees(I, query(I, f, g), v) is False:
                            raise Violated("constructed with %s, the fuzzy output's %s is %s" % (show(v), g, show(I.val(query(I, f, g)))))
                for g, v in DEFAULTS.get(c, {}).items():
                    if g not in gs[:upto] and not (g.startswith("numberOf")) and agrees(I, query(I, o, g), v) is False:
                        raise Violated("%s starts as %s, documented %s" % (g, show(I.val(query(I, o, g))), show(v)))
                return None if ok else False
            chk.obl("constructor", c, "%d arguments" % upto, scen, limit=16, where=chk.loc(q))
    for c, d in DEFAULTS.items():
        def scen(I, c=c, d=d):
            o = I.make(c)
            for g, v in d.items():
                if agrees(I, query(I, o, g), v) is False:
                    raise Violated("a new %s has %s = %s, documented %s" % (c, g, show(I.val(query(I, o, g))), show(v)))
        chk.obl("default", c, "all", scen, where=chk.loc(c))

    # ---- exceptions
    def message(I, how):
        from .data import invoke
        S = I.std.SStr
        st = lambda v: v.v if hasattr(v, "v") else v
        at = ("some/File.cpp", 4711, "someFunction")
        if how == "located":
            ct = [m for m in p.cls[FLN + "Exception"].methods if m["kind"] == "ctor" and len(m["pt"]) == 4][0]
            x = I.new_object(FLN + "Exception", ct["u"], [S("the message"), S(at[0]), at[1], S(at[2])])
        else:
            x = I.make("Exception", "the message")
        if how == "more":
            invoke(I, x, "append", ["string"], S("more of it"))
        if how == "place":
            invoke(I, x, "append", ["string", "int", "string"], S(at[0]), at[1], S(at[2]))
        if how == "more and place":
            invoke(I, x, "append", ["string", "string", "int", "string"], S("more of it"), S(at[0]), at[1], S(at[2]))
        if how == "replaced":
            I.call(x, "setWhat", "another message")
        t = st(I.val(I.call(x, "getWhat")))
        w = I.val(I.call(x, "what"))
        w = st(w) if not hasattr(w, "vec") else "".join(c if isinstance(c, str) else chr(c) for c in map(I.val, w.vec.x[w.i:])).rstrip("\0")
        if isinstance(w, str) and w != t:
            raise Violated("what() is %r, getWhat() %r" % (w, t))
        first = "another message" if how == "replaced" else "the message"
        if not t.startswith(first) or how in ("plain", "replaced") and t != first:
            raise Violated("the message given as %r is %r" % (first, t))
        rest = t[len(first):]
        if how in ("more", "more and place") and "more of it" not in rest:
            raise Violated("what is appended is missing from %r" % t)
        if how in ("located", "place", "more and place") and not all(str(a) in rest for a in at):
            raise Violated("the place is missing from %r" % t)
    for how in ("plain", "located", "more", "place", "more and place", "replaced"):
        chk.obl("constructor" if how in ("plain", "located") else "set", "Exception", "message " + how, lambda I, how=how: message(I, how), where=chk.loc("Exception", "append") or chk.loc("Exception"))

    # ---- builders
    for cls, b, g in (("RuleBlock", "conjunction", "getConjunction"), ("RuleBlock", "disjunction", "getDisjunction"), ("RuleBlock", "implication", "getImplication"),
                      ("RuleBlock", "activation", "getActivation"), ("RuleBlock", "rules", "rules"), ("Aggregated", "aggregation", "getAggregation"),
                      ("Aggregated", "terms", "terms")):
        def scen(I, cls=cls, b=b, g=g):
            V = Values(I, 500)
            o = I.make(cls)
            populate(I, o, V)
            props = settables(p, FLN + cls)
            m = [m for _, m in p.methods(FLN + cls, b, 1) if len(m["pt"]) == 1][0]
            v = V.of(m["pt"][0]["t"])
            before = {k: snapshot(I, x) for k, x in values_of(I, o, props).items()}
            old = I.val(query(I, o, g)) if b in ("rules", "terms") else None
            oldn = len(old.x) if old is not None else 0
            olds = list(old.x) if old is not None else []
            r = I.val(set_by(I, o, m, v))
            if r is not o:
                raise Violated("%s() returns %s instead of the object itself" % (b, show(r)))
            got = I.val(query(I, o, g))
            if b in ("rules", "terms"):       # the list builders append
                v = [I.val(x) for x in olds] + v
                if len(got.x) != oldn + 2 and len(got.x) != oldn + 3:
                    raise Violated("%s(...) leaves %d elements, %d were there before" % (b, len(got.x), oldn))
            if agrees(I, got, v) is False:
                raise Violated("after %s(...), %s() is %s instead of %s" % (b, g, show(got), show(v)))
            after = values_of(I, o, props)
            for k in before:
                if k != g and unchanged(I, before[k], after[k]) is False:
                    raise Violated("%s() also changes %s()" % (b, k))
        chk.obl("builder", cls + "::" + b, "all", scen, where=chk.loc(cls, b, 1))

    def brule(I):
        o = I.make("RuleBlock")
        a, b = I.make("Rule", "one"), I.make("Rule", "two")
        if I.val(I.call(o, "rule", a)) is not o:
            raise Violated("rule() does not return the block")
        I.call(o, "rule", b)
        if agrees(I, query(I, o, "rules"), [a, b]) is False:
            raise Violated("rule() does not append")
    chk.obl("builder", "RuleBlock::rule", "append", brule, where=chk.loc("RuleBlock", "rule", 1))

    def bterm(I):
        V = Values(I, 700)
        o = I.make("Aggregated")
        ts = [(V.component(FLN + "Term"), V.num(), V.component(FLN + "TNorm")) for _ in range(3)]
        I.call(o, "addTerm", *ts[0])
        if I.val(I.call(o, "term", *ts[1])) is not o:
            raise Violated("term() does not return the object itself")
        I.call(o, "addTerm", I.make("Activated", *ts[2]))
        if I.get(o, "numberOfTerms") != 3:
            raise Violated("three terms were added, %s are held" % show(I.get(o, "numberOfTerms")))
        for i, (t, d, im) in enumerate(ts):
            x = I.val(I.call(o, "getTerm", i))
            for g, v in (("getTerm", t), ("getDegree", d), ("getImplication", im)):
                if agrees(I, query(I, x, g), v) is False:
                    raise Violated("term %d was added with %s, %s() is %s" % (i, show(v), g, show(I.val(query(I, x, g)))))
        lo, hi = V.num(), V.num()
        if I.val(I.call(o, "range", lo, hi)) is not o:
            raise Violated("range() does not return the object itself")
        if same(I.get(o, "getMinimum"), lo) is False or same(I.get(o, "getMaximum"), hi) is False:
            raise Violated("range(lo, hi) sets [%s, %s]" % (show(I.get(o, "getMinimum")), show(I.get(o, "getMaximum"))))
    chk.obl("builder", "Aggregated::term", "append", bterm, where=chk.loc("Aggregated", "term"))

    # ---- alternative spellings
    for cls in ("InputVariable", "OutputVariable", "Aggregated"):
        def rg(I, cls=cls):
            V = Values(I, 900)
            o = I.make(cls)
            populate(I, o, V)
            props = settables(p, FLN + cls)
            before = {k: snapshot(I, x) for k, x in values_of(I, o, props).items()}
            lo, hi = N.leaf("lo", 1.0, 2.0), N.leaf("hi", 5.0, 7.0)
            I.call(o, "setRange", lo, hi)
            if same(I.get(o, "getMinimum"), lo) is False or same(I.get(o, "getMaximum"), hi) is False:
                raise Violated("setRange(lo, hi) sets [%s, %s]" % (show(I.get(o, "getMinimum")), show(I.get(o, "getMaximum"))))
            expect(I.get(o, "range"), N.sub(hi, lo), "range()")
            after = values_of(I, o, props)
            for k in before:
                if k not in ("getMinimum", "getMaximum") and unchanged(I, before[k], after[k]) is False:
                    raise Violated("setRange also changes %s()" % k)
            if cls == "OutputVariable":
                f = I.val(query(I, o, "fuzzyOutput"))
                if same(I.get(f, "getMinimum"), lo) is False or same(I.get(f, "getMaximum"), hi) is False:
                    raise Violated("setRange does not reach the fuzzy output")
        chk.obl("spelling", cls + "::setRange", "all", rg, where=chk.loc(cls, "setRange", 2))
    COMP = {"<": "LessThan", "<=": "LessThanOrEqualTo", "==": "EqualTo", "!=": "NotEqualTo", ">=": "GreaterThanOrEqualTo", ">": "GreaterThan"}
    enum = {c["n"]: int(c["v"]) for c in p.enums[FLN + "Threshold::Comparison"]["c"]}
    for s, e in COMP.items():
        def th(I, s=s, e=e):
            V = Values(I, 950)
            v = V.num()
            for mk in ("setter", "constructor"):
                if mk == "setter":
                    o = I.make("Threshold")
                    I.call(o, "setThreshold", s, v)
                else:
                    o = I.make("Threshold", s, v)
                if I.get(o, "getComparison") != enum[e] or same(I.get(o, "getValue"), v) is False:
                    raise Violated("the %s with %r gives comparison %s and value %s" % (mk, s, I.get(o, "getComparison"), show(I.get(o, "getValue"))))
                if I.get(o, "comparisonOperator") != s:
                    raise Violated("the comparison %s is written %r" % (e, I.get(o, "comparisonOperator")))
            o = I.make("Threshold")
            I.call(o, "setThreshold", enum[e], v)
            if I.get(o, "getComparison") != enum[e] or same(I.get(o, "getValue"), v) is False:
                raise Violated("setThreshold(%s, v) gives comparison %s" % (e, I.get(o, "getComparison")))
            if s not in [I.val(x) for x in I.val(I.call(o, "availableComparisonOperators")).x]:
                raise Violated("%r is not listed as available" % s)
        chk.obl("spelling", "Threshold", s, th, where=chk.loc("Threshold", "parseComparison"))
    chk.obl("spelling", "Threshold", "unknown symbols", lambda I: [expect_throw(I, lambda: I.call(I.make("Threshold"), "setThreshold", b, 0.5), "the comparison %r" % b)
                                                                     for b in ("", "=", "=>", "!", "<>", "less")] and None, where=chk.loc("Threshold", "parseComparison"))
    wt = {c["n"]: int(c["v"]) for c in p.enums[FLN + "WeightedDefuzzifier::Type"]["c"]}
    for cls in ("WeightedAverage", "WeightedSum"):
        for n, v in wt.items():
            def ty(I, cls=cls, n=n, v=v):
                o = I.make(cls, n)
                if I.get(o, "getType") != v:
                    raise Violated("constructed with the name %r its type is %s" % (n, I.get(o, "getType")))
                o = I.make(cls, (v + 1) % 3)
                I.call(o, "setType", n)
                if I.get(o, "getType") != v or I.get(o, "getTypeName") != n:
                    raise Violated("set to the type named %r its type is %s called %r" % (n, I.get(o, "getType"), I.get(o, "getTypeName")))
                expect_throw(I, lambda: I.call(o, "setType", "NoSuchType"), "setting an unknown type")
                if I.get(o, "getType") != v:
                    raise Violated("a rejected type changes the type")
            chk.obl("spelling", cls, n, ty, where=chk.loc("WeightedDefuzzifier", "setType", 1))
    return ("Enumerates every public one-argument setter of every concrete class in the resolved program, pairs it with its query, and interprets both with opaque values from a state "
            "in which all attributes differ; constructors and builders are interpreted the same way.")
