"""C30 (named and indexed access), C31 (readiness), C33 (queries and exports modify nothing)."""
import itertools
import re, random
from flai import num as N
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool, UB, Cell, FnRef
from .fuzzy import World, expect, expect_throw, opaque, FLN
from . import objects as OB
from .objects import Values, query, queries, describe, demand_same, short, concrete, populate
from .copies import PLAIN_RULES, rich_engine, outs, ins, blocks_of


def lst(I, v):
    return [I.val(x) for x in I.val(v).x]


def is_same(I, got, want, what):
    got = [id(x) for x in got]
    if got != [id(x) for x in want]:
        where = {id(x): i for i, x in enumerate(want)}
        raise Violated("%s: the collection is %s, specified 0..%d in order" % (what, [where.get(g, "?") for g in got], len(want) - 1))


# owner class, element class, stem of the methods, list query, count query
COLLECTIONS = [
    ("Engine", "InputVariable", "InputVariable", "inputVariables", "numberOfInputVariables", True),
    ("Engine", "OutputVariable", "OutputVariable", "outputVariables", "numberOfOutputVariables", True),
    ("Engine", "RuleBlock", "RuleBlock", "ruleBlocks", "numberOfRuleBlocks", True),
    ("Variable", "Ramp", "Term", "terms", "numberOfTerms", True),
    ("InputVariable", "Ramp", "Term", "terms", "numberOfTerms", True),
    ("OutputVariable", "Ramp", "Term", "terms", "numberOfTerms", True),
    ("RuleBlock", "Rule", "Rule", "rules", "numberOfRules", False),
]
NAMESETS = [(), ("a",), ("", "a"), ("a", "ab"), ("ab", "a", "a", "b"), ("b", "A", "a", "ba", "a")]
MORENAMES = [("x", "x"), ("a", "b", "c", "d", "e", "f", "a"), ("a ", "a"), ("ab", "abc", "abcd", "abc"), ("1", "2", "11", "12", "1")]
ASKED = ("a", "b", "ab", "A", "", "zz", "abc", "1", "x")


def has(p, o, n, k):
    return any(m["access"] == 0 for _, m in p.methods(FLN + o, n, k))


def overload(p, o, n, text):
    """uid of the method n of o whose first parameter is a text / an index."""
    for _, m in p.methods(FLN + o, n, 1):
        if (m["pt"][0]["t"].find("string") >= 0) == text:
            return m["u"]
    return None


def c30(chk):
    I, p = chk.I, chk.p
    chk.rule("add", "add appends the component; count and list agree with the sequence of operations")
    chk.rule("insert", "insert places the component at the index and shifts the later ones")
    chk.rule("set", "set replaces exactly the one at the index and returns the one it replaces")
    chk.rule("remove", "remove takes out and returns exactly the one at the index, or the first one with the name; the rest keep their order")
    chk.rule("get", "access by index returns the component at the index; access by name returns the first one with the name, and has agrees")
    chk.rule("bounds", "an index beyond the end raises an exception and changes nothing")
    chk.rule("absent", "a name no component has raises an exception and changes nothing")
    chk.rule("list", "handing over a list makes it the collection, in that order")
    chk.rule("history", "every history of operations leaves the collection a sequence with the same operations leaves")
    chk.rule("values", "setting an input value or asking for an output value by name reaches the variable of that name and kind only")
    chk.rule("variables", "the list of all variables is the inputs and then the outputs, and the lookup by name searches them in that order")
    chk.rule("sort", "sorting keeps exactly the same terms and orders them by centroid (by value for constant and linear terms), those without one last")
    sets = NAMESETS + (MORENAMES if chk.thorough else MORENAMES[:2])
    rnd = random.Random(chk.seed * 77 + 30)
    for owner, elem, stem, listq, countq, named in COLLECTIONS:
        label = "%s::%s" % (owner, stem)

        def fresh(I, names, owner=owner, elem=elem, stem=stem):
            o = I.make(owner)
            xs = []
            for n in names:
                xs.append(item(I, n))
                I.call(o, "add" + stem, xs[-1])
            return o, xs

        def item(I, name="new", elem=elem, named=named):
            x = I.make(elem)
            if named:
                I.call(x, "setName", name)
            return x

        def check(I, o, xs, what, listq=listq, countq=countq, stem=stem):
            is_same(I, lst(I, I.call(o, listq)), xs, what)
            if I.get(o, countq) != len(xs):
                raise Violated("%s: %s reports %s of %d" % (what, countq, I.get(o, countq), len(xs)))

        def w(n, k, owner=owner, stem=stem):
            return chk.loc(owner, n + stem, k)

        for names in sets:
            case = "names %s" % (list(names),)

            def add(I, names=names):
                o, xs = fresh(I, names)
                check(I, o, xs, "after adding %d" % len(xs))
            chk.obl("add", label, case, add, where=w("add", 1))

            def handed(I, names=names, owner=owner, elem=elem, stem=stem, listq=listq):
                o, old = fresh(I, ("o1", "o2"))
                xs = [item(I, n) for n in names]
                I.call(o, "set" + stem + "s", I.std.Vec([Cell(x) for x in xs], FLN + elem + " *"))
                check(I, o, xs, "after set%ss" % stem)
            if has(p, owner, "set" + stem + "s", 1):
                chk.obl("list", label, case, handed, where=w("set", 1) or chk.loc(owner, "set" + stem + "s", 1))

            byname = overload(p, owner, "get" + stem, True)
            byindex = overload(p, owner, "get" + stem, False)
            hasu = overload(p, owner, "has" + stem, True)
            for i in range(len(names)):
                def get(I, names=names, i=i):
                    o, xs = fresh(I, names)
                    if I.val(I.invoke(byindex, o, [i], True)) is not xs[i]:
                        raise Violated("index %d returns another component" % i)
                    check(I, o, xs, "after access by index %d" % i)
                chk.obl("get", label, case + ", index %d" % i, get, where=w("get", 1))

                def rem(I, names=names, i=i, stem=stem):
                    o, xs = fresh(I, names)
                    r = I.val(I.invoke(overload(p, I.p and o.cls.replace(FLN, ""), "remove" + stem, False), o, [i], True))
                    if r is not xs[i]:
                        raise Violated("removing index %d returns another component" % i)
                    I.check_alive(r)
                    check(I, o, xs[:i] + xs[i + 1:], "after removing index %d" % i)
                chk.obl("remove", label, case + ", index %d" % i, rem, where=w("remove", 1))

                def st(I, names=names, i=i, stem=stem):
                    o, xs = fresh(I, names)
                    x = item(I)
                    r = I.val(I.call(o, "set" + stem, x, i))
                    if r is not xs[i]:
                        raise Violated("replacing index %d does not return the component it replaces" % i)
                    I.check_alive(r)
                    check(I, o, xs[:i] + [x] + xs[i + 1:], "after replacing index %d" % i)
                if has(p, owner, "set" + stem, 2):
                    chk.obl("set", label, case + ", index %d" % i, st, where=w("set", 2))
            for i in range(len(names) + 1):
                def ins_(I, names=names, i=i, stem=stem):
                    o, xs = fresh(I, names)
                    x = item(I)
                    I.call(o, "insert" + stem, x, i)
                    check(I, o, xs[:i] + [x] + xs[i:], "after inserting at %d" % i)
                chk.obl("insert", label, case + ", index %d" % i, ins_, where=w("insert", 2))
            for i in (len(names), len(names) + 1, 2 ** 32 + 1):
                for op in ("get", "remove", "set"):
                    if op == "set" and not has(p, owner, "set" + stem, 2):
                        continue

                    def out(I, names=names, i=i, op=op, stem=stem):
                        o, xs = fresh(I, names)
                        x = item(I)
                        if op == "set":
                            expect_throw(I, lambda: I.call(o, "set" + stem, x, i), "set at index %d of %d" % (i, len(xs)), None)
                        else:
                            u = overload(p, short(o.cls), op + stem, False)
                            expect_throw(I, lambda: I.invoke(u, o, [i], True), "%s at index %d of %d" % (op, i, len(xs)), None)
                        check(I, o, xs, "after the exception")
                    chk.obl("bounds", label, case + ", %s %d" % (op, i), out, where=w(op, 1))
            if not named:
                continue
            remu = overload(p, owner, "remove" + stem, True)
            for n in ASKED:
                at = names.index(n) if n in names else None

                def byn(I, names=names, n=n, at=at, hasu=hasu, byname=byname, stem=stem):
                    o, xs = fresh(I, names)
                    h = I.truth_of(I.invoke(hasu, o, [I.std.SStr(n)], True)) if hasattr(I, "truth_of") else I.val(I.invoke(hasu, o, [I.std.SStr(n)], True))
                    if bool(h) != (at is not None):
                        raise Violated("has%s(%r) is %s" % (stem, n, h))
                    if at is None:
                        expect_throw(I, lambda: I.invoke(byname, o, [I.std.SStr(n)], True), "get%s(%r)" % (stem, n))
                    elif I.val(I.invoke(byname, o, [I.std.SStr(n)], True)) is not xs[at]:
                        raise Violated("get%s(%r) does not return the first component of that name" % (stem, n))
                    check(I, o, xs, "after access by name")
                chk.obl("get" if at is not None else "absent", label, case + ", name %r" % n, byn, where=w("get", 1))
                if remu:
                    def remn(I, names=names, n=n, at=at, remu=remu, stem=stem):
                        o, xs = fresh(I, names)
                        if at is None:
                            expect_throw(I, lambda: I.invoke(remu, o, [I.std.SStr(n)], True), "remove%s(%r)" % (stem, n))
                            check(I, o, xs, "after the exception")
                            return
                        r = I.val(I.invoke(remu, o, [I.std.SStr(n)], True))
                        if r is not xs[at]:
                            raise Violated("remove%s(%r) does not return the first component of that name" % (stem, n))
                        I.check_alive(r)
                        check(I, o, xs[:at] + xs[at + 1:], "after removing %r" % n)
                    chk.obl("remove" if at is not None else "absent", label, case + ", name %r" % n, remn, where=w("remove", 1))

        for h in range(12 if chk.thorough else 4):
            s = rnd.randrange(1 << 30)

            def hist(I, s=s, owner=owner, stem=stem, named=named, elem=elem):
                r = random.Random(s)
                o, xs = fresh(I, ())
                done = []
                for k in range(30):
                    op = r.choice(("add", "add", "insert", "insert", "set", "remove", "removen", "list"))
                    x = item(I, r.choice("abcd"))
                    if op == "add":
                        I.call(o, "add" + stem, x)
                        xs.append(x)
                    elif op == "insert":
                        i = r.randint(0, len(xs))
                        I.call(o, "insert" + stem, x, i)
                        xs.insert(i, x)
                    elif op == "set" and xs and has(p, owner, "set" + stem, 2):
                        i = r.randrange(len(xs))
                        I.call(o, "set" + stem, x, i)
                        xs[i] = x
                    elif op == "remove" and xs:
                        i = r.randrange(len(xs))
                        I.invoke(overload(p, owner, "remove" + stem, False), o, [i], True)
                        xs.pop(i)
                    elif op == "removen" and xs and overload(p, owner, "remove" + stem, True):
                        n = I.get(r.choice(xs), "getName")
                        I.invoke(overload(p, owner, "remove" + stem, True), o, [I.std.SStr(n)], True)
                        xs.pop(next(i for i, y in enumerate(xs) if I.get(y, "getName") == n))
                    elif op == "list" and r.random() < 0.3:
                        xs = [item(I, r.choice("abcd")) for _ in range(r.randint(0, 4))]
                        I.call(o, "set" + stem + "s", I.std.Vec([Cell(x) for x in xs], FLN + elem + " *"))
                    else:
                        continue
                    done.append(op)
                    check(I, o, xs, "after " + " ".join(done[-6:]))
            chk.obl("history", label, "history %d" % h, hist, where=chk.loc(owner))

    # ---- the activated terms of a fuzzy output
    def agg(I, n, drop=None):
        o = I.make("Aggregated")
        ts = [I.make("Ramp") for _ in range(n)]
        ds = [opaque("degree", i) for i in range(n)]
        im = [I.make("Minimum") for _ in range(n)]
        for t, d, m in zip(ts, ds, im):
            I.call(o, "addTerm", t, d, m)
        return o, list(zip(ts, ds, im))

    def seen(I, o, want, what):
        n = I.get(o, "numberOfTerms")
        got = []
        for i in range(n):
            a = I.val(I.call(o, "getTerm", i))
            got.append((I.val(I.call(a, "getTerm")), I.val(I.call(a, "getDegree")), I.val(I.call(a, "getImplication"))))
        if n != len(want) or any(g[0] is not x[0] or g[2] is not x[2] or same(g[1], x[1]) is False for g, x in zip(got, want)):
            raise Violated("%s: the activated terms are not the expected %d in order" % (what, len(want)))
        e = I.val(I.call(o, "isEmpty"))
        if bool(e) != (n == 0):
            raise Violated("%s: isEmpty is %s with %d terms" % (what, e, n))
    for n in range(5):
        for i in range(n + 2):
            def ar(I, n=n, i=i):
                o, want = agg(I, n)
                seen(I, o, want, "after adding")
                if i < n:
                    r = I.val(I.call(o, "removeTerm", i))
                    if I.val(I.call(r, "getTerm")) is not want[i][0] or same(I.val(I.call(r, "getDegree")), want[i][1]) is False:
                        raise Violated("removing index %d returns another activated term" % i)
                    seen(I, o, want[:i] + want[i + 1:], "after removing index %d" % i)
                else:
                    for m in ("getTerm", "removeTerm"):
                        expect_throw(I, lambda: I.call(o, m, i), "%s(%d) of %d" % (m, i, n), None)
                    seen(I, o, want, "after the exception")
                    I.call(o, "clear")
                    seen(I, o, [], "after clear")
            chk.obl("remove" if i < n else "bounds", "Aggregated::Term", "%d of %d" % (i, n), ar, where=chk.loc("Aggregated", "removeTerm", 1))

    # ---- values by name
    for kind, order in itertools.product(("setInputValue", "getOutputValue"), range(3)):
        def vals(I, kind=kind, order=order):
            e = I.make("Engine")
            V = Values(I, 50)
            allv = []
            for c in ("InputVariable", "OutputVariable"):
                for n in ("a", "ab", "c", "a")[order:]:
                    v = I.make(c)
                    I.call(v, "setName", n)
                    x = V.num()
                    I.call(v, "setValue", x)
                    I.call(e, "add" + c, v)
                    allv.append([v, x, n, c])
            before = {id(v[0]): describe(I, v[0], ignore=("getValue",)) for v in allv}
            for n in ("a", "ab", "c", "d"):
                c = "InputVariable" if kind == "setInputValue" else "OutputVariable"
                hit = next((v for v in allv if v[2] == n and v[3] == c), None)
                x = V.num()
                f = (lambda: I.call(e, kind, n, x)) if kind == "setInputValue" else (lambda: I.call(e, kind, n))
                if hit is None:
                    expect_throw(I, f, "%s(%r)" % (kind, n))
                else:
                    r = f()
                    if kind == "setInputValue":
                        hit[1] = x
                    else:
                        expect(I.val(r), hit[1], "%s(%r)" % (kind, n))
                for v in allv:
                    expect(I.val(I.call(v[0], "getValue")), v[1], "value of the %s %s after %s(%r)" % (v[3], v[2], kind, n))
        chk.obl("values", "Engine::" + kind, "from %d" % order, vals, where=chk.loc("Engine", kind))

    for i, j in itertools.product(range(4), range(4)):
        def av(I, i=i, j=j):
            e = I.make("Engine")
            xs = []
            for c, k in (("InputVariable", i), ("OutputVariable", j)):
                for n in "abcd"[:k]:
                    v = I.make(c)
                    I.call(v, "setName", n if c[0] == "I" else n + "o")
                    I.call(e, "add" + c, v)
                    xs.append(v)
            is_same(I, lst(I, I.call(e, "variables")), xs, "variables()")
        chk.obl("variables", "Engine::variables", "%d inputs, %d outputs" % (i, j), av, where=chk.loc("Engine", "variables"))

    # ---- sort
    cents = [("Constant", lambda I, c: I.make("Constant", "t", N.const(c))), ("Linear", lambda I, c: I.make("Linear", "t", I.std.Vec([Cell(N.const(c))], "double"), I.make("Engine"))),
             ("Rectangle", lambda I, c: I.make("Rectangle", "t", N.const(c - 0.25), N.const(c + 0.25))),
             ("Triangle", lambda I, c: I.make("Triangle", "t", N.const(c - 0.5), N.const(c), N.const(c + 0.5)))]
    at = [1.0, 2.0, 3.0, 4.0]
    for which in ("Constant", "Linear", "Rectangle", "Triangle", "mixed", "with a formula not loaded"):
        for perm in list(itertools.permutations(range(4)))[:: 1 if chk.thorough else 5]:
            def so(I, which=which, perm=perm):
                v = I.make("Variable")
                I.call(v, "setRange", N.const(0.0), N.const(5.0))
                want = {}
                for k in perm:
                    name, mk = cents[k] if which[0] in "mw" else next(c for c in cents if c[0] == which)
                    t = mk(I, at[k])
                    want[k] = t
                    I.call(v, "addTerm", t)
                exp = [want[k] for k in range(4)]
                if which[0] == "w":
                    f = I.make("Function")
                    I.call(v, "insertTerm", f, perm[0])
                    exp.append(f)
                I.call(v, "sort")
                is_same(I, lst(I, I.call(v, "terms")), exp, "after sort")
            chk.obl("sort", "Variable::sort", "%s, order %s" % (which, perm), so, where=chk.loc("Variable", "sort"))
    return "Interprets every public collection operation of Engine, Variable, RuleBlock, Aggregated and the factories over collections of several sizes, with equal names, and histories of operations, against a list model."


# --------------------------------------------------------------------------- C31
INTEGRAL = ("Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum")
WEIGHTED = ("WeightedAverage", "WeightedSum")
PLAIN = "if in1 is a then out1 is x"
ANDS = ("if in1 is a and in2 is a then out1 is x", "if in1 is a and(in2 is a) then out1 is x", "if (in1 is a)and in2 is not a then out1 is x with 0.5",
        "if in1 is a\nand in2 is a then out1 is x", "if  in1 is a and\tin2 is a  then  out1 is x and out1 is y", "if in1 is any and in2 is a and in1 is a then out1 is x")
ORS = tuple(t.replace("and", "or", 1) for t in ANDS[:4]) + ("if in1 is a or in2 is any then out1 is x and out1 is y",)
BOTH = ("if in1 is a and in2 is a or in1 is b then out1 is x", "if (in1 is a or in2 is a)and(in1 is b) then out1 is y")
NONE = (PLAIN, "if in1 is very a then out1 is x and out1 is y", "if in1 is a then out1 is not x with 0.25")
# names that contain the connectives without being them
LOOKS = ("if landed is standard then out1 is orderly and out1 is x",)


class Config:
    def __init__(self, **kw):
        self.inputs, self.outputs, self.blocks = 2, 1, 1
        self.terms, self.defuzzifier, self.aggregation = True, "Centroid", True
        self.conj = self.disj = self.impl = True
        self.rules = [PLAIN]
        self.null = ""
        self.at = 0        # which output / block is the one with something missing
        self.__dict__.update(kw)

    def need(self):
        """[(words the report must contain in one line)]"""
        out = []
        if not self.inputs:
            out.append(("input variable",))
        if not self.outputs:
            out.append(("output variable",))
        if not self.blocks:
            out.append(("rule block",))
        if self.outputs:
            n = "out1"
            if not self.terms:
                out.append((n, "term"))
            if self.defuzzifier is None:
                out.append((n, "defuzzifier"))
            elif self.defuzzifier in INTEGRAL and not self.aggregation:
                out.append((n, "aggregation"))
        if self.blocks:
            if not self.rules:
                out.append(("block1", "rules"))
            texts = self.rules
            if not self.conj and any(t in ANDS + BOTH for t in texts):
                out.append(("block1", "conjunction"))
            if not self.disj and any(t in ORS + BOTH for t in texts):
                out.append(("block1", "disjunction"))
            if not self.impl and texts and self.outputs and self.inputs and self.terms and self.defuzzifier in INTEGRAL:
                out.append(("block1", "implication"))
        if self.null:
            out.append(())
        return out


def build_config(I, c):
    e = I.make("Engine")
    I.call(e, "setName", "engine")
    for n in ("in1", "in2", "landed")[:c.inputs]:
        v = I.make("InputVariable")
        I.call(v, "setName", n)
        for t in ("a", "b", "standard"):
            x = I.make("Ramp")
            I.call(x, "setName", t)
            I.call(v, "addTerm", x)
        I.call(e, "addInputVariable", v)
    for j in range(c.outputs):
        full = j != c.at
        v = I.make("OutputVariable")
        I.call(v, "setName", "out1" if not full else "other%d" % j)
        if c.terms or full:
            for t in ("x", "y", "orderly"):
                x = I.make("Ramp")
                I.call(x, "setName", t)
                I.call(v, "addTerm", x)
        d = "Centroid" if full else c.defuzzifier
        if d:
            I.call(v, "setDefuzzifier", I.make(d))
        if c.aggregation or full:
            I.call(v, "setAggregation", I.make("Maximum"))
        I.call(e, "addOutputVariable", v)
    for j in range(c.blocks):
        full = j != c.at
        b = I.make("RuleBlock")
        I.call(b, "setName", "block1" if not full else "rest%d" % j)
        if c.conj or full:
            I.call(b, "setConjunction", I.make("Minimum"))
        if c.disj or full:
            I.call(b, "setDisjunction", I.make("Maximum"))
        if c.impl or full:
            I.call(b, "setImplication", I.make("Minimum"))
        I.call(b, "setActivation", I.make("General"))
        for t in [PLAIN] if full else c.rules:
            r = I.make("Rule")
            I.call(r, "setText", t)
            if c.inputs and c.outputs and c.terms:
                I.call(r, "load", e)
            I.call(b, "addRule", r)
        I.call(e, "addRuleBlock", b)
    if c.null == "rule":
        I.call(I.val(I.call(e, "getRuleBlock", 0)), "addRule", None)
    elif c.null:
        I.call(e, "add" + c.null, None)
    return e


numbering = {}


def ready(chk, c):
    def f(I):
        e = build_config(I, c)
        need = c.need()
        before = describe(I, e) if not c.null else None
        status = I.std.SStr("junk")
        from flai.interp import Cell
        cell = Cell(status)
        r = I.val(I.call(e, "isReady", cell))
        r0 = I.val(I.call(e, "isReady", None))
        if bool(r) != bool(r0):
            raise Violated("asking with and without a report gives %s and %s" % (r, r0))
        text = I.val(cell).v if hasattr(I.val(cell), "v") else str(I.val(cell))
        if bool(r) != (not need):
            raise Violated("reports %s; missing are %s" % ("ready" if r else "not ready: " + text.strip(), [" of ".join(reversed(n)) for n in need] or "none"))
        if not need and text:
            raise Violated("reports ready but gives %r" % text)
        lines = text.split("\n")
        for n in need:
            if not any(all(x in l for x in n) for l in lines) or not text.strip():
                raise Violated("the report %r does not name the missing %s" % (text.strip(), " of ".join(reversed(n)) or c.null))
        for l in lines:
            if not l.strip() or c.null:
                continue
            mine = [n for n in need if all(x in l for x in n)]
            if not mine:
                raise Violated("the report says %r, which is not missing" % l.strip())
            for num in re.findall(r"[Bb]lock (\d+)", l):
                if int(num) not in (c.at, c.at + 1):
                    raise Violated("the report %r numbers rule block %d of %d as %s" % (l.strip(), c.at + 1, c.blocks, num))
                base = numbering.setdefault("base", int(num) - c.at)
                if int(num) - c.at != base:
                    raise Violated("the report %r numbers rule block %d of %d as %s" % (l.strip(), c.at + 1, c.blocks, num))
            for num in re.findall(r"(\d+) rules?\b", l):
                want = {k for k, texts in (("conjunction", ANDS + BOTH), ("disjunction", ORS + BOTH)) if k in l for t in [sum(t in texts for t in c.rules)] if t == int(num)}
                if not want and ("conjunction" in l or "disjunction" in l):
                    raise Violated("the report %r counts %s rules" % (l.strip(), num))
                if "implication" in l and int(num) != len(c.rules):
                    raise Violated("the report %r counts %s rules of %d" % (l.strip(), num, len(c.rules)))
        if c.null:
            k = {"InputVariable": c.inputs, "OutputVariable": c.outputs, "RuleBlock": c.blocks, "rule": len(c.rules)}[c.null]
            for num in re.findall(r"index <?(\d+)", text):
                if int(num) != k:
                    raise Violated("the report %r says index %s, it is %d" % (text.strip(), num, k))
        if before is not None:
            return demand_same(before, describe(I, e), "the engine after asking")
    return f


def c31(chk):
    I, p = chk.I, chk.p
    chk.rule("complete", "an engine with all components its rules and defuzzifiers need reports ready and an empty report")
    chk.rule("missing", "an engine that misses a component reports not ready and names every missing one")
    chk.rule("null", "a missing (null) variable, rule block or rule is reported, not dereferenced")
    w = chk.loc("Engine", "isReady")
    T = chk.thorough

    def go(name, **kw):
        c = Config(**kw)
        need = c.need()
        chk.obl("null" if c.null else "missing" if need else "complete", "Engine::isReady", name, ready(chk, c), where=w)
    for i, o, b in itertools.product((0, 1, 2), (0, 1, 3), (0, 1, 3)):
        go("%d inputs, %d outputs, %d rule blocks" % (i, o, b), inputs=i, outputs=o, blocks=b)
    for d in INTEGRAL + WEIGHTED + (None,):
        for t, a, im in itertools.product((True, False), repeat=3):
            for at, n in ((0, 1),) + (((0, 3), (1, 3), (2, 3)) if T else ((1, 2),)):
                go("defuzzifier %s, terms %s, aggregation %s, implication %s, output %d of %d" % (d, t, a, im, at + 1, n), defuzzifier=d, terms=t, aggregation=a, impl=im,
                   outputs=n, blocks=n, at=at)
    for cj, dj in itertools.product((True, False), repeat=2):
        for k, texts in (("and", ANDS), ("or", ORS), ("both", BOTH), ("neither", NONE)):
            for t in texts:
                for pos in range(3):
                    if pos and not T and (cj or dj):
                        continue
                    rules = [PLAIN] * 2
                    rules.insert(pos, t)
                    if pos == 0:
                        rules = [t]
                    for at, n in ((0, 1), (1, 3)) if T else ((pos, 3),) if pos else ((0, 1),):
                        go("%s rule %r, conjunction %s, disjunction %s, rule %d, block %d of %d" % (k, t, cj, dj, pos + 1, at + 1, n), rules=rules, conj=cj, disj=dj, at=at,
                           blocks=n, outputs=max(1, n))
        for r in LOOKS:
            go("names that contain connectives, conjunction %s, disjunction %s" % (cj, dj), rules=[r], conj=cj, disj=dj, inputs=3)
    for cj, dj, im in itertools.product((True, False), repeat=3):
        for rules in ([], [ANDS[0], ORS[0]], [BOTH[0]], [ORS[0], PLAIN, ANDS[0]]):
            for d in ("Centroid", "WeightedAverage"):
                go("%d rules, conjunction %s, disjunction %s, implication %s, %s" % (len(rules), cj, dj, im, d), rules=rules, conj=cj, disj=dj, impl=im, defuzzifier=d)
    for n in ("InputVariable", "OutputVariable", "RuleBlock", "rule"):
        go("a null " + n, null=n)

    def mixed(I, kinds, rules, loaded, impl):
        """rules: the outputs that each concludes about"""
        c = Config(outputs=len(kinds), at=0, defuzzifier=kinds[0], impl=impl, rules=[])
        e = build_config(I, c)
        os = [I.val(I.call(e, "getOutputVariable", k)) for k in range(len(kinds))]
        for k, (o, d) in enumerate(zip(os, kinds)):
            I.call(o, "setName", "out%d" % (k + 1))
            I.call(o, "setDefuzzifier", I.make(d) if d else None)
            I.call(o, "setEnabled", k % 2 == 0)
        b = I.val(I.call(e, "getRuleBlock", 0))
        for j, concl in enumerate(rules):
            r = I.make("Rule")
            I.call(r, "setText", "if in1 is a then " + " and ".join("out%d is x" % (k + 1) for k in concl))
            I.call(r, "setEnabled", j % 2 == 1)
            if loaded[j]:
                I.call(r, "load", e)
            I.call(b, "addRule", r)
        need = not impl and any(l and any(kinds[k] in INTEGRAL for k in concl) for l, concl in zip(loaded, rules))
        lines = [("out%d" % (k + 1), "defuzzifier") for k, d in enumerate(kinds) if d is None] + ([("block1", "implication")] if need else [])
        before = describe(I, e)
        from flai.interp import Cell
        cell = Cell(I.std.SStr(""))
        got = bool(I.val(I.call(e, "isReady", cell)))
        t = I.val(cell)
        t = t.v if hasattr(t, "v") else str(t)
        if got != (not lines):
            raise Violated("reports %s; missing are %s" % ("ready" if got else "not ready: " + t.strip(), [" of ".join(reversed(x)) for x in lines] or "none"))
        for n in lines:
            if not any(all(x in l for x in n) for l in t.split("\n")):
                raise Violated("the report %r does not name the missing %s" % (t.strip(), " of ".join(reversed(n))))
        return demand_same(before, describe(I, e), "the engine after asking")
    WI = ("WeightedAverage", "Centroid")
    for kinds in (WI, WI[::-1], ("WeightedSum", "WeightedAverage", "Bisector"), ("WeightedSum", "MeanOfMaximum", "WeightedSum"), (None, "Centroid"), ("WeightedSum", None), ("WeightedSum", "WeightedSum")):
        n = len(kinds)
        for impl in (False, True):
            for rules in ((tuple(range(n)),), (tuple(range(n))[::-1],), ((0,), tuple(range(n))), ((0,), (n - 1,)), ((n - 1,), (0,)), ((1, 0), (0,))):
                for loaded in itertools.product((True, False), repeat=len(rules)):
                    if not any(loaded) and kinds != WI:
                        continue
                    chk.obl("missing" if not impl or None in kinds else "complete", "Engine::isReady", "outputs %s, rules that conclude about %s, loaded %s, implication %s" % (kinds, rules, loaded, impl),
                            lambda I, a=(kinds, rules, loaded, impl): mixed(I, *a), where=w)
    return "Interprets Engine::isReady over engines from which one or several components are absent, judged by the documented requirements, and checks that asking changes nothing."


# --------------------------------------------------------------------------- C33
EXPORTERS = ("FllExporter", "FisExporter", "FclExporter", "CppExporter", "JavaExporter")


def argument(I, t, name, pool, V):
    """A value for a query's parameter of type t, taken from the objects around."""
    p = I.p
    b = t.replace("const ", "").replace(" const", "").rstrip("& ").strip()
    if b in ("double", "float"):
        return V.num()
    if b == "bool":
        return False
    if b in ("int", "unsigned long", "long", "size_t"):
        return 0
    if b.startswith("std::basic_string") or b in ("std::string", "basic_string"):
        return "a"
    if b.endswith("*"):
        q = b[:-1].strip()
        if q in p.cls:
            for o in pool:
                if p.is_a(o.dyn, q):
                    return o
        return None
    if b in p.cls:
        for o in pool:
            if p.is_a(o.dyn, b):
                return o
    if b in p.enums:
        return int(p.enums[b]["c"][0]["v"])
    raise Undecided("no argument of type " + t)


def const_methods(p, q):
    out, seen = [], set()
    for cq in p.lin(q):
        c = p.cls.get(cq)
        for m in (c.methods if c else []):
            if m["kind"] == "m" and m["access"] == 0 and m["const"] and not m["static"] and m["rt"] != "void" and not m["n"].startswith("operator"):
                sig = (m["n"],) + tuple(x["t"] for x in m["pt"])
                if sig not in seen:
                    seen.add(sig)
                    out.append(m)
    return out


def around(I, o):
    """Every library object reachable from o."""
    return [x for x in I.reachable([o]).values() if x.__class__ is Obj and x.alive and x.dyn in I.p.cls]


# operations that are const in the declaration and meant to act on what the component refers to
ACTS = {"unloadRules", "unload"}
IGN33 = ("variables",)


def c33(chk):
    from .copies import build
    I, p = chk.I, chk.p
    chk.rule("query", "calling a query leaves every attribute of the component, its owner and everything they refer to as it was")
    chk.rule("repeat", "asking twice gives the same answer")
    chk.rule("export", "exporting an engine or a part of it leaves every attribute as it was")
    classes = [q for q in concrete(p) if short(q).split("::")[0] not in ("Exception", "Console")]
    if len(classes) < 60:
        raise AnalysisBroken("only %d concrete classes" % len(classes))

    def run(I, o, ms, root, pool, V, what, complete=False):
        unsure = []
        before = describe(I, root, ignore=IGN33)
        for m in ms:
            try:
                args = [I.coerce(argument(I, x["t"], x["n"], pool, V), x["t"]) for x in m["pt"]]
            except Undecided:
                continue
            got = []
            for k in range(2):
                try:
                    got.append(I.val(I.invoke(m["u"], o, list(args), m["virt"])))
                except CppThrow as e:
                    got.append(e)
                except UB:
                    # a precondition of the query does not hold for these arguments
                    return unsure.append(m["n"]) or False
            after = describe(I, root, ignore=IGN33)
            if demand_same(before, after, "after %s::%s" % (what, m["n"])) is False:
                unsure.append(m["n"])
            a, b = got
            if complete and isinstance(a, CppThrow):
                raise Violated("%s::%s raises an exception for an engine it can express" % (what, m["n"]))
            if isinstance(a, CppThrow) != isinstance(b, CppThrow):
                raise Violated("%s::%s raises only %s" % (what, m["n"], "the first time" if isinstance(a, CppThrow) else "the second time"))
            if a.__class__ in (N.Num, bool, int, float, I.std.SStr, str) and a.__class__ is b.__class__:
                va, vb = (a.v, b.v) if a.__class__ is I.std.SStr else (a, b)
                if same(va, vb) is False:
                    raise Violated("%s::%s gives %s and then %s" % (what, m["n"], show(va), show(vb)))
        return False if unsure else None

    for q in classes:
        c = short(q)
        if c == "FldExporter":
            continue
        ms = [m for m in const_methods(p, q) if m["n"] not in ACTS]
        if not ms or c.endswith("Exporter"):
            continue
        step = 6 if q in (FLN + "Engine",) else 12
        for k in range(0, len(ms), step):
            part = ms[k:k + step]

            def standalone(I, q=q, c=c, part=part):
                V = Values(I, 7000)
                o = build(I, q, V)
                return run(I, o, part, o, [x for x in around(I, o) if x is not o], V, c)
            chk.obl("query", c, "alone: " + ", ".join(m["n"] for m in part), standalone, where=chk.loc(c, part[0]["n"]) or chk.loc(c))

    def inside(I, **kw):
        V = Values(I, 7000)
        e = rich_engine(I, V, **kw)
        for v in ins(I, e):
            I.call(v, "setValue", V.num())
        return e, V

    IN = ["Engine", "InputVariable", "OutputVariable", "RuleBlock", "Rule", "Antecedent", "Consequent", "Proposition", "Operator", "Aggregated", "Activated", "Triangle", "Gaussian",
          "Ramp", "Discrete", "Linear", "Function", "Bisector", "WeightedSum", "Minimum", "Maximum", "Very", "Not", "Any"]
    for c in IN:
        q = FLN + c
        if q not in p.cls:
            continue
        ms = [m for m in const_methods(p, q) if m["n"] not in ACTS]
        for k in range(0, len(ms), 8):
            part = ms[k:k + 8]

            for kind, kw in (("an engine", {}), ("an engine with rules that are not loaded", {"loaded": False}), ("an engine without fuzzy outputs and the other flags", {"flip": True, "fuzzy": False})):
                if kw and c not in ("Engine", "InputVariable", "OutputVariable", "RuleBlock", "Rule", "Antecedent", "Consequent", "Aggregated"):
                    continue

                def within(I, q=q, c=c, part=part, kw=kw):
                    e, V = inside(I, **kw)
                    pool = around(I, e)
                    os = [x for x in pool if x.dyn == q]
                    if not os:
                        raise Undecided("the engine has no " + c)
                    for o in os[:1] if not kw else os[:1] + os[-1:]:
                        r = run(I, o, part, e, pool, V, c)
                        if r is False:
                            return r
                chk.obl("query", c, "in %s: %s" % (kind, ", ".join(m["n"] for m in part)), within, where=chk.loc(c, part[0]["n"]) or chk.loc(c))

    for c in EXPORTERS:
        q = FLN + c
        for m in const_methods(p, q):
            if not m["pt"] or "std::" in m["rt"] and "string" not in m["rt"] or m["n"].startswith("toFile"):
                continue

            def export(I, q=q, c=c, m=m):
                e, V = inside(I, rules=PLAIN_RULES)
                x = I.make(q)
                pool = [e] + around(I, e)
                return run(I, x, [m], e, pool, V, c, [x["t"] for x in m["pt"]] == ["const fuzzylite::Engine *"])
            chk.obl("export", "%s::%s(%s)" % (c, m["n"], ", ".join(x["t"].replace(FLN, "") for x in m["pt"])), "a rich engine", export, where=chk.loc(c, m["n"]))

            def export2(I, q=q, c=c, m=m):
                e, V = inside(I, rules=PLAIN_RULES, loaded=False, flip=True)
                x = I.make(q)
                pool = [e] + around(I, e)
                return run(I, x, [m], e, pool, V, c)
            chk.obl("export", "%s::%s(%s)" % (c, m["n"], ", ".join(x["t"].replace(FLN, "") for x in m["pt"])), "an engine with rules that are not loaded", export2, where=chk.loc(c, m["n"]))
    # engines of which some part has no name, no description, no operator, no term or no rule
    from . import texts as X
    term = lambda n: [X.T("Triangle", n), X.T("Gaussian", "b")]
    ruled = ("if in1 is a then out1 is x",)
    PARTS = {
        "a nameless engine": lambda: X.E(X.ab(2), X.xy(1), [X.B("r", ruled)], name=""),
        "a nameless rule block": lambda: X.E(X.ab(2), X.xy(1), [X.B("", ruled)]),
        "two nameless rule blocks": lambda: X.E(X.ab(1), X.xy(1), [X.B("", ruled), X.B("", (), enabled=False)]),
        "a nameless input": lambda: X.E(X.ab(1) + [X.V("", term("q"))], X.xy(1), [X.B("r", ruled)]),
        "a nameless output": lambda: X.E(X.ab(1), X.xy(1) + [X.V("", term("q"))], [X.B("r", ruled)]),
        "nameless terms": lambda: X.E([X.V("in1", term("") + [X.T("Triangle", "")])], [X.V("out1", term(""))], [X.B("r")]),
        "names with spaces and signs": lambda: X.E([X.V("in 1", term("a b")), X.V("1st", term("-"))], [X.V("out#1", term("9"))], [X.B("my block")], name="an engine"),
        "no operators": lambda: X.E(X.ab(1), [X.V("out1", aggregation=None, defuzz=None)], [X.B("", (), conj=None, disj=None, impl=None, act=None)]),
        "variables without terms": lambda: X.E([X.V("in1", [])], [X.V("out1", [])], [X.B("r")]),
        "nothing": lambda: X.E([], [], [], name=""),
        "disabled parts": lambda: X.E([X.V("in1", enabled=False)], [X.V("out1", enabled=False)], [X.B("r", ruled if 0 else (), enabled=False)]),
        "descriptions": lambda: X.E([X.V("in1", desc="about\nit")], [X.V("out1", desc="# x")], [X.B("r", desc=" d ")], desc="a\n\nb"),
    }
    for c in EXPORTERS:
        for m in const_methods(p, FLN + c):
            if not m["pt"] or "std::" in m["rt"] and "string" not in m["rt"] or m["n"].startswith("toFile"):
                continue
            for what, spec in PARTS.items():
                def export3(I, c=c, m=m, spec=spec):
                    V = Values(I, 7000)
                    e = X.make_engine(I, spec(), 7100)
                    x = I.make(FLN + c)
                    pool = [e] + around(I, e)
                    return run(I, x, [m], e, pool, V, c)
                chk.obl("export", "%s::%s(%s)" % (c, m["n"], ", ".join(x["t"].replace(FLN, "") for x in m["pt"])), "an engine with " + what if what != "nothing" else "an empty engine", export3,
                        where=chk.loc(c, m["n"]))
    return "Interprets every const query, text and export of every concrete class of the resolved program (and of engines with unloaded rules and flipped flags) and compares canonical descriptions of everything around before and after."
