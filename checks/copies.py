"""C19 (copies reproduce every attribute) and C20 (owned once, nothing shared, everything released)."""
import itertools
from flai import num as N
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool, UB, Cell, FnRef
from .fuzzy import World, expect, expect_throw, opaque, FLN
from . import objects as OB
from .objects import Values, query, agrees, describe, demand_same, short, concrete, populate, settables, set_by

# a standalone copy of a rule is not loaded (loading needs an engine); the activation state is set by the next activation
RULE_STATE = ("getActivationDegree", "isTriggered")
RULE_LOADED = RULE_STATE + ("isLoaded", "getAntecedent", "getConsequent")
# pointers that refer to components owned by someone else
REFS = {"Activated": ("getTerm", "getImplication"), "Linear": ("getEngine",), "Function": ("getEngine",), "Benchmark": ("getEngine",),
        "Proposition": ("variable", "term")}


RULES = ("if in1 is very a and in2 is not seldom b then out1 is x and out2 is somewhat y", "if (in1 is b or in2 is any) and in1 is a then out2 is x with 0.5")
# rules that every format can express
PLAIN_RULES = (RULES[0], "if in1 is b or in2 is any then out2 is x with 0.5")


def rich_engine(I, V=None, flip=False, loaded=True, fuzzy=True, formulas=True, blocks=2, weights=True, rules=RULES):
    """An engine in which every attribute has a value of its own."""
    V = V or Values(I, 1000)
    p = I.p
    k = V.next() * 10
    e = I.make("Engine")
    I.call(e, "setName", "engine%d" % k)
    I.call(e, "setDescription", "about %d" % k)
    sets = {"InputVariable": [], "OutputVariable": []}

    def term(cls, name, *args, h=None):
        t = I.make(cls)
        I.call(t, "setName", name)
        if args:
            I.call(t, "configure", " ".join(txt(I, a) for a in args))
        if h is not None:
            I.call(t, "setHeight", h)
        return t

    for j in (1, 2):
        v = I.make("InputVariable")
        I.call(v, "setName", "in%d" % j)
        I.call(v, "setDescription", "input %d of %d" % (j, k))
        I.call(v, "setRange", opaque("lo", k, j, lo=-3, hi=-2), opaque("hi", k, j, lo=2, hi=3))
        I.call(v, "setEnabled", (j == 1) != flip)
        I.call(v, "setValue", V.num())
        I.call(v, "setLockValueInRange", (j == 2) != flip)
        I.call(v, "addTerm", term("Triangle", "a", V.num(), V.num(), V.num(), h=V.num()))
        I.call(v, "addTerm", term("Gaussian", "b", V.num(), V.num()))
        I.call(e, "addInputVariable", v)
    for j in (1, 2):
        v = I.make("OutputVariable")
        I.call(v, "setName", "out%d" % j)
        I.call(v, "setDescription", "output %d of %d" % (j, k))
        I.call(v, "setRange", opaque("lo", k, j, "o", lo=-3, hi=-2), opaque("hi", k, j, "o", lo=2, hi=3))
        I.call(v, "setEnabled", (j == 2) != flip)
        I.call(v, "setLockPreviousValue", (j == 1) != flip)
        I.call(v, "setLockValueInRange", (j == 2) != flip)
        I.call(v, "setValue", V.num())
        I.call(v, "setPreviousValue", V.num())
        I.call(v, "setDefaultValue", V.num())
        I.call(v, "setAggregation", I.make("AlgebraicSum" if (j == 1) != flip else "Maximum"))
        d = I.make("Bisector" if (j == 1) != flip else "WeightedSum")
        if (j == 1) != flip:
            I.call(d, "setResolution", 50 + k % 40 + j)
        else:
            I.call(d, "setType", 1)
        I.call(v, "setDefuzzifier", d)
        I.call(v, "addTerm", term("Ramp", "x", V.num(), V.num(), h=V.num()))
        I.call(v, "addTerm", term("Discrete", "y", V.num(), V.num(), V.num(), V.num()))
        if formulas:
            I.call(v, "addTerm", term("Linear", "l", V.num(), V.num(), V.num()))
            f = I.make("Function")
            I.call(f, "setName", "f")
            I.call(f, "setFormula", "in1 + 2 * in2 ^ 3")
            I.call(v, "addTerm", f)
        I.call(e, "addOutputVariable", v)
    I.call(e, "updateReferences")
    for v in outs(I, e):
        for t in [I.val(x) for x in I.val(I.call(v, "terms")).x]:
            if t.dyn == FLN + "Function":
                I.call(t, "load", "in1 + 2 * in2 ^ 3", e)
    acts = ["First", "Threshold", "Highest"]
    for j in range(blocks):
        b = I.make("RuleBlock")
        I.call(b, "setName", "block%d" % j)
        I.call(b, "setDescription", "block %d of %d" % (j, k))
        I.call(b, "setEnabled", (j == 0) != flip)
        I.call(b, "setConjunction", I.make("Minimum" if (j == 0) != flip else "EinsteinProduct"))
        I.call(b, "setDisjunction", I.make("Maximum" if (j == 0) != flip else "BoundedSum"))
        I.call(b, "setImplication", I.make("AlgebraicProduct" if (j == 0) != flip else "HamacherProduct"))
        a = I.make(acts[(j + flip) % 3])
        populate(I, a, V)
        I.call(b, "setActivation", a)
        for n, text in enumerate(rules):
            r = I.make("Rule")
            I.call(r, "setText", text)
            if loaded:
                I.call(r, "load", e)
            if weights:
                I.call(r, "setWeight", V.num())
                I.call(r, "setEnabled", ((n + j) % 2 == 0) != flip)
            I.call(b, "addRule", r)
        I.call(e, "addRuleBlock", b)
    if fuzzy:
        bs = blocks_of(I, e)
        for j, v in enumerate(outs(I, e)):
            f = I.val(I.call(v, "fuzzyOutput"))
            for n in (1, 0):
                I.call(f, "addTerm", I.val(I.call(v, "getTerm", n)), V.num(), I.val(I.call(bs[n % len(bs)], "getImplication")))
    return e


def txt(I, v):
    from .params import text
    return text(I, v) if not isinstance(v, str) else v


def outs(I, e):
    return [I.val(x) for x in I.val(I.call(e, "outputVariables")).x]


def ins(I, e):
    return [I.val(x) for x in I.val(I.call(e, "inputVariables")).x]


def blocks_of(I, e):
    return [I.val(x) for x in I.val(I.call(e, "ruleBlocks")).x]


def copyable(p, q):
    """Which of copy construction, assignment and cloning class q offers publicly."""
    c = p.cls[q]
    out = []
    if any(m["kind"] == "ctor" and m["copy"] and m["access"] == 0 and not m["del"] for m in c.methods):
        out.append("copy")
    if any(m["n"] == "operator=" and m["copyasg"] and m["access"] == 0 and not m["del"] for m in c.methods):
        out.append("assign")
    if any(m["n"] == "clone" and m["const"] and not m["pt"] for _, m in p.methods(q, "clone", 0)):
        out.append("clone")
    return out


def do_copy(I, src, how, onto=None):
    if how == "clone":
        return I.val(I.call(src, "clone"))
    if how == "copy":
        c = I.copy_obj(src, src.cls)
        I.on_heap(c, "scenario")
        return c
    I.assign(onto, src)
    return onto


def bare_one(I, q):
    """A default-constructed object (an activated term is of no use without the term)."""
    o = I.make(q)
    if short(q) == "Activated":
        I.call(o, "setTerm", I.make("Triangle", "t"))
    return o


def build_other(I, q, V):
    """Another object of the class, in which also every flag and choice differs from those of build()."""
    if short(q) == "Engine":
        return rich_engine(I, V, flip=True, blocks=1)
    o = build(I, q, V)
    for n, m, g in settables(I.p, o.dyn):
        t = m["pt"][0]["t"].replace("const ", "").rstrip("& ").strip()
        if t == "bool":
            OB.set_by(I, o, m, not I.truth(I.val(OB.query(I, o, g))))
        elif t in I.p.enums:
            vs = [int(c["v"]) for c in I.p.enums[t]["c"]]
            cur = I.val(OB.query(I, build(I, q, Values(I, 2000)), g))
            OB.set_by(I, o, m, next((v for v in vs if v != cur), vs[0]))
    return o


def build(I, q, V):
    c = short(q)
    if c == "Engine":
        return rich_engine(I, V)
    o = I.make(q)
    populate(I, o, V)
    if c in ("InputVariable", "OutputVariable", "Variable"):
        I.call(o, "setLockValueInRange", True)
        I.call(o, "setRange", opaque("lo", V.next(), lo=-3, hi=-2), opaque("hi", V.next(), lo=2, hi=3))
        I.call(o, "setValue", V.num())
    if c == "OutputVariable":
        f = I.val(I.call(o, "fuzzyOutput"))
        t = I.val(I.call(o, "getTerm", 1))
        I.call(f, "addTerm", t, V.num(), V.component(FLN + "TNorm"))
        I.call(f, "addTerm", V.component(FLN + "Term"), V.num(), V.component(FLN + "TNorm"))
    if c == "Function":
        e = I.get(o, "getEngine")
        x = I.make("InputVariable", "x")
        I.call(e, "addInputVariable", x)
        I.call(o, "load", "x*2 + sin(x) ^ (1 - x)", e)
        m = o.get("variables")
        if m.__class__ is I.std.MapO:
            k = "v%d" % V.next()
            m.d[k] = I.std.Pair(I.std.SStr(k), Cell(V.num()))
    if c in ("TNormFunction", "SNormFunction"):
        I.call(o, "setFormula", "a*b + 0.%d" % (100 + V.next()))
    if c == "HedgeFunction":
        I.call(o, "setFormula", "x*0.%d" % (100 + V.next()))
    if c.endswith("Factory"):
        if hasattr(o, "f") and I.p.methods(q, "deregisterConstructor", 1):
            ns = [n for n in OB.names_of(I, o) if n]
            I.call(o, "deregisterConstructor", ns[V.next() % len(ns)])
        else:
            I.call(o, "deregisterObject", ["sin", "cos", "and"][V.next() % 3])
    if c == "FactoryManager":
        for g, fac in ((g, f) for g, f, _ in OB.KINDS.values()):
            f = I.make(fac)
            ns = [n for n in OB.names_of(I, f) if n]
            I.call(f, "deregisterConstructor", ns[V.next() % len(ns)])
            I.call(o, "set" + g[0].upper() + g[1:], f)
    return o


def ignored(q):
    c = short(q)
    return RULE_LOADED if c in ("Rule", "RuleBlock") else RULE_STATE


def extra(I, o):
    """What a description through const queries does not show."""
    out = []
    for n in ("available", "availableObjects"):
        if I.p.methods(o.cls, n, 0):
            out.append((n, [I.val(x) for x in I.val(I.call(o, n)).x]))
    return out


def factories(I, o):
    fs = [o] if short(o.dyn).endswith("Factory") else [I.get(o, g) for g, _, _ in OB.KINDS.values()] + [I.get(o, "function")] if o.dyn == FLN + "FactoryManager" else []
    out = []
    for f in fs:
        ns = sorted(OB.names_of(I, f))
        if I.p.methods(f.cls, "getConstructor", 1):
            out.append((f.dyn, [(n, repr(I.get(f, "getConstructor", n))) for n in ns]))
        else:
            out.append((f.dyn, [(n, repr(sorted(describe(I, I.get(f, "getObject", n)).out.items(), key=lambda x: x[0]))) for n in ns]))
    return out


def drop(kind, number):
    def f(I, o):
        while I.get(o, number):
            I.delete(I.val(I.call(o, kind, 0)))
    return f


def unset(*setters):
    def f(I, o):
        for s in setters:
            I.call(o, s, None)
    return f


def no_conclusions(I, o):
    I.call(I.val(I.call(o, "fuzzyOutput")), "clear")


def let_go(f):
    """An engine without references from one component into another, before some are taken away."""
    def g(I, e):
        for v in outs(I, e):
            no_conclusions(I, v)
        for b in blocks_of(I, e):
            drop("removeRule", "numberOfRules")(I, b)
        f(I, e)
    return g


# class -> the components that can be taken away from a populated object
SPARSE = {
    FLN + "Engine": {"inputs": let_go(drop("removeInputVariable", "numberOfInputVariables")), "outputs": let_go(drop("removeOutputVariable", "numberOfOutputVariables")),
                     "blocks": let_go(drop("removeRuleBlock", "numberOfRuleBlocks"))},
    FLN + "InputVariable": {"terms": drop("removeTerm", "numberOfTerms")},
    FLN + "OutputVariable": {"conclusions and terms": lambda I, o: (no_conclusions(I, o), drop("removeTerm", "numberOfTerms")(I, o)),
                             "aggregation": unset("setAggregation"), "defuzzifier": unset("setDefuzzifier")},
    FLN + "RuleBlock": {"rules": drop("removeRule", "numberOfRules"), "conjunction": unset("setConjunction"), "disjunction": unset("setDisjunction"),
                        "implication": unset("setImplication"), "activation": unset("setActivation")},
}


def c19(chk):
    I, p = chk.I, chk.p
    chk.rule("same", "a copy, clone or assignment target has the dynamic class and, through every public query and data member, the content of its source in which every attribute has a distinct value")
    chk.rule("assign", "assigning onto a populated target leaves nothing of its previous content, and onto itself changes nothing")
    chk.rule("source", "copying does not change the source")
    n = 0
    classes = [q for q in concrete(p) if copyable(p, q)]
    if len(classes) < 60:
        raise AnalysisBroken("only %d copyable classes" % len(classes))
    for q in classes:
        c = short(q)
        skip = OB.DERIVED if not c.endswith("Factory") else OB.DERIVED | {"available", "constructors", "objects"}
        for how in copyable(p, q):
            targets = ("-",) if how != "assign" else ("new", "populated", "itself")
            for onto, bare in [(t, False) for t in targets] + [(t, True) for t in targets if t in ("-", "populated")]:
                def scen(I, q=q, c=c, how=how, onto=onto, skip=skip, bare=bare):
                    a = bare_one(I, q) if bare else build(I, q, Values(I, 2000))
                    ign = ignored(q)
                    if c == "FactoryManager":
                        ign = ign + tuple(g for g, _, _ in OB.KINDS.values()) + ("function",)
                    before = describe(I, a, skip=skip, ignore=ign)
                    full = describe(I, a, skip=skip)
                    fb = factories(I, a)
                    b = None
                    if onto == "new":
                        b = I.make(q)
                    elif onto == "populated":
                        b = build_other(I, q, Values(I, 4001))
                    elif onto == "itself":
                        b = a
                    r = do_copy(I, a, how, b)
                    if not isinstance(r, Obj):
                        raise Violated("cloning yields %s" % show(r))
                    if how != "assign" and r is a:
                        raise Violated("the copy is the source itself")
                    if r.dyn != a.dyn:
                        raise Violated("the copy of a %s is a %s" % (c, short(r.dyn)))
                    s1 = demand_same(before, describe(I, r, skip=skip, ignore=ign), "the copy of the %s" % c)
                    if factories(I, r) != fb:
                        raise Violated("the registrations of the copy differ: %s" % diff(fb, factories(I, r)))
                    s2 = demand_same(full, describe(I, a, skip=skip), "after being copied, the source %s" % c)
                    return None if s1 is None and s2 is None else False
                chk.obl("same" if onto in ("-", "new") else "assign", c, how + (" of a default-constructed object" if bare else "") + ("" if onto == "-" else " onto " + onto), scen, where=chk.loc(c, "copyFrom") or chk.loc(c, "operator=") or chk.loc(c))
                n += 1

    # objects holding some kinds of components only
    for q, parts in sorted(SPARSE.items()):
        if q not in p.cls or q not in classes:
            continue
        c = short(q)
        names = sorted(parts)
        for k in range(2 ** len(names)):
            gone = [x for i, x in enumerate(names) if k >> i & 1]
            if not gone or (len(names) > 3 and len(gone) not in (1, len(names) - 1, len(names))):
                continue
            for how in copyable(p, q):
                for onto in ("-",) if how != "assign" else ("populated", "itself", "from populated"):
                    def scen(I, q=q, c=c, how=how, onto=onto, gone=gone, parts=parts):
                        a = build(I, q, Values(I, 2000))
                        for x in gone:
                            parts[x](I, a)
                        b = None if onto == "-" else a if onto == "itself" else build_other(I, q, Values(I, 4001))
                        if onto == "from populated":
                            a, b = b, a
                        ign = ignored(q)
                        before = describe(I, a, skip=OB.DERIVED, ignore=ign)
                        r = do_copy(I, a, how, b)
                        s1 = demand_same(before, describe(I, r, skip=OB.DERIVED, ignore=ign), "%s without %s, %s" % (c, ", ".join(gone), how))
                        s2 = demand_same(before, describe(I, a, skip=OB.DERIVED, ignore=ign), "the source, %s without %s" % (c, ", ".join(gone))) if how != "move" else True
                        nothing_dead(I, r, "%s of a %s without %s" % (how, c, ", ".join(gone)))
                        return None if s1 is None and s2 is None else False
                    chk.obl("same" if onto == "-" else "assign", c, how + " without " + ", ".join(gone) + ("" if onto == "-" else " onto " + onto if onto != "from populated" else " from a populated one"), scen,
                            where=chk.loc(c, "copyFrom") or chk.loc(c, "operator=") or chk.loc(c))
                    n += 1

    # the nodes of formulas
    def node(I, n):
        n = n.p if hasattr(n, "p") else n
        if n is None:
            return None
        n = I.val(n)
        if n is None:
            return None
        el = n.get("element")
        el = I.val(el.p if hasattr(el, "p") else el)
        return (repr(sorted(describe(I, el).out.items(), key=lambda x: x[0])) if el is not None else None, I.val(n.get("variable")), repr(n.get("constant")), node(I, n.get("left")), node(I, n.get("right")))

    def objects_of(I, n):
        n = I.val(n.p if hasattr(n, "p") else n)
        if n is None:
            return []
        el = n.get("element")
        return [n, I.val(el.p if hasattr(el, "p") else el)] + objects_of(I, n.get("left")) + objects_of(I, n.get("right"))
    FORMULAS = ("x*2 + sin(x) ^ (1 - x)", "x % 2", "x", "3.5", "~x", "max(a, 2)", "(a + b) * (c - 4)")
    for text in FORMULAS:
        for how in ("clone", "copy", "assign"):
            for onto in ("-",) if how != "assign" else FORMULAS[:5] + ("itself",):
                def nodes(I, text=text, how=how, onto=onto):
                    def root(t):
                        f = I.make("Function", "f")
                        m = f.get("variables")
                        if m.__class__ is I.std.MapO:
                            for v in "abc":
                                m.d[v] = I.std.Pair(I.std.SStr(v), Cell(N.const(1.5)))
                        I.call(f, "load", t, I.make("Engine"))
                        return I.get(f, "root")
                    a = root(text)
                    before = node(I, a)
                    b = None if onto == "-" else a if onto == "itself" else root(onto)
                    r = do_copy(I, a, how, b)
                    if node(I, r) != before:
                        raise Violated("the copy of the tree of `%s` is %s, the source %s" % (text, show(node(I, r)), show(before)))
                    if node(I, a) != before:
                        raise Violated("copying changes the source")
                    if r is not a and set(map(id, filter(None, objects_of(I, r)))) & set(map(id, filter(None, objects_of(I, a)))):
                        raise Violated("the copy shares nodes or elements with the source")
                chk.obl("same" if onto == "-" else "assign", "Function::Node", "%s of `%s`%s" % (how, text, "" if onto == "-" else " onto the tree of `%s`" % onto), nodes, where=chk.loc("Function::Node", "copyFrom") or chk.loc("Function"))

    # the activation state of copied rules is that of the source or that of a new rule, whatever the target's was
    chk.rule("mark", "the activation degree and the triggered mark of a copied rule are those of its source or those of a new rule")

    def ruled(I, what, marks, degrees):
        e = I.make("Engine")
        b = I.make("RuleBlock")
        I.call(e, "addRuleBlock", b)
        rs = []
        for m, d in zip(marks, degrees):
            r = I.make("Rule")
            I.call(r, "setActivationDegree", d)
            I.call(r, "setTriggered", m)
            rs.append(r)
        if what == "Rule":
            return rs[0]
        for r in rs:
            I.call(b, "addRule", r)
        return b if what == "RuleBlock" else e

    def rules_in(I, o):
        c = short(o.dyn)
        return [o] if c == "Rule" else [I.val(x) for x in I.val(I.call(o if c == "RuleBlock" else blocks_of(I, o)[0], "rules")).x]
    for what in ("Rule", "RuleBlock", "Engine"):
        for how in copyable(p, FLN + what):
            for marks in ((False, True), (True, False), (False, False), (True, True)):
                for onto in (("-",) if how != "assign" else ("new", "marked", "unmarked")):
                    def mark(I, what=what, how=how, marks=marks, onto=onto):
                        ds = [opaque("degree", k) for k in range(2)]
                        a = ruled(I, what, marks, ds)
                        t = None if onto == "-" else ruled(I, what, [onto == "marked"] * 2, [opaque("other", k) for k in range(2)]) if onto != "new" else I.make(what)
                        r = do_copy(I, a, how, t)
                        got = rules_in(I, r)
                        if len(got) != len(rules_in(I, a)):
                            raise Violated("%d rules copied of %d" % (len(got), len(rules_in(I, a))))
                        for k, x in enumerate(got):
                            if I.truth(I.get(x, "isTriggered")) not in (marks[k], False):
                                raise Violated("rule %d of the copy is marked triggered, that of the source is not" % (k + 1))
                            d = I.num(I.get(x, "getActivationDegree"))
                            if not (d.lo == d.hi == 0.0 or repr(d) == repr(ds[k]) or (d.lo, d.hi) == (ds[k].lo, ds[k].hi)):
                                raise Violated("rule %d of the copy has activation degree %s, that of the source %s" % (k + 1, show(d), show(ds[k])))
                    chk.obl("mark", what, "%s of rules marked %s%s" % (how, "/".join(str(m) for m in marks), "" if onto == "-" else " onto " + onto), mark, where=chk.loc(what, "copyFrom") or chk.loc(what, "operator=") or chk.loc(what))

    # engines with absent components and without rules loaded
    def sparse(I):
        e = I.make("Engine")
        v = I.make("InputVariable", "a")
        w = I.make("OutputVariable", "b")
        I.call(e, "addInputVariable", v)
        I.call(e, "addOutputVariable", w)
        b = I.make("RuleBlock")
        I.call(e, "addRuleBlock", b)
        r = I.make("Rule")
        I.call(r, "setText", "not a rule")
        I.call(b, "addRule", r)
        I.call(r, "setEnabled", False)
        I.call(r, "setWeight", opaque("w"))
        r2 = I.make("Rule")
        I.call(b, "addRule", r2)
        d = describe(I, e)
        c = I.val(I.call(e, "clone"))
        x = demand_same(d, describe(I, c), "the clone of a sparse engine")
        full = rich_engine(I, Values(I, 7000))
        I.assign(full, e)
        y = demand_same(d, describe(I, full), "a rich engine assigned from a sparse one")
        return None if x is None and y is None else False
    chk.obl("same", "Engine", "sparse", sparse, where=chk.loc("Engine", "copyFrom"))
    return "Copies every class with public copy construction, assignment or clone (found in the resolved program) from a source with distinct opaque attribute values, and compares canonical descriptions."


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s instead of %s" % (y, x)
    return "%d instead of %d" % (len(b), len(a))


# --------------------------------------------------------------------------- C20
def owned(I, root):
    """Every object reached from root through ownership (references to components of others are not followed)."""
    from .objects import query
    seen, todo = {}, [root]
    while todo:
        v = todo.pop()
        c = v.__class__
        if v is None or c in (int, float, str, bool, FnRef, UBool) or id(v) in seen:
            continue
        seen[id(v)] = v
        if c is Obj:
            if not v.alive:
                continue
            refs = set()
            for cq in I.p.lin(v.dyn):
                for g in REFS.get(short(cq), ()):
                    try:
                        x = I.val(query(I, v, g))
                    except Undecided:
                        continue
                    refs.add(id(x))
            for f in v.f.values():
                for x in flat(f):
                    if id(x) not in refs:
                        todo.append(x)
        else:
            todo.extend(flat(v))
    return {i: o for i, o in seen.items() if o.__class__ is Obj}


def flat(v):
    c = v.__class__
    if c is Cell:
        return [v.v]
    if c is Obj:
        return [v]
    if c in (list, tuple):
        return [y for x in v for y in flat(x)]
    if c is dict:
        return [y for x in v.values() for y in flat(x)]
    out = []
    for k in getattr(c, "__mro__", ()):
        for a in getattr(k, "__slots__", ()):
            x = getattr(v, a, None)
            if x.__class__ is dict:
                for y in x.values():
                    out += flat(y)
            elif x.__class__ in (list, tuple) or x.__class__ in (Obj, Cell) or hasattr(x, "copy_std"):
                out += flat(x)
    return out


def foreign(I, root, own):
    """Objects root refers to without owning them."""
    r = I.reachable([root])
    glob = I.reachable(list(I.globals.values()))
    return {i: o for i, o in r.items() if o.__class__ is Obj and i not in own and i not in glob}


def nothing_dead(I, root, what):
    for o in I.reachable([root]).values():
        if o.__class__ is Obj and not o.alive:
            raise Violated("%s: it still refers to a %s that was destroyed" % (what, short(o.cls)))


def all_dead(I, own, what, keep=()):
    kept = {id(o) for o in keep}
    for i, o in own.items():
        if i not in kept and o.alive and o in I.heap:
            raise Violated("%s: the %s it owned is never released" % (what, short(o.cls)))


def all_alive(I, objs, what):
    for o in objs.values():
        if not o.alive:
            raise Violated("%s: a %s owned by someone else is destroyed" % (what, short(o.cls)))


def no_leak(I, roots, what, since=()):
    for o in I.leaks(list(roots)):
        if id(o) not in since:
            raise Violated("%s: a %s allocated at %s is never released" % (what, short(o.cls) if o.__class__ is Obj else "allocation", getattr(o, "site", "?")))


def c20(chk):
    I, p = chk.I, chk.p
    chk.rule("destroy", "destroying a populated component destroys exactly what it owns, once, and leaves what it merely refers to")
    chk.rule("copy", "a copy owns no object of its source; destroying either leaves the other complete, and then nothing is left over")
    chk.rule("assign", "assignment releases what the target owned, once")
    chk.rule("move", "moving hands everything over exactly once and leaves nothing referring to the moved-from object")
    chk.rule("replace", "replacing an owned component releases it, replacing a reference does not; the new one is released with the owner")
    chk.rule("collections", "add hands over, set and remove hand back, the rest stays owned")
    chk.rule("reload", "loading again, unloading, clearing and reconfiguring release what was there before")
    classes = concrete(p)
    if len(classes) < 70:
        raise AnalysisBroken("only %d concrete classes" % len(classes))
    for q in classes:
        c = short(q)
        w = chk.loc(c, "~" + c.split("::")[-1]) or chk.loc(c)

        def des(I, q=q, c=c):
            a = build(I, q, Values(I, 2000))
            own = owned(I, a)
            ref = foreign(I, a, own)
            I.delete(a)
            all_dead(I, own, "after destroying the " + c)
            all_alive(I, ref, "after destroying the " + c)
            no_leak(I, ref.values(), "after destroying the " + c)
        chk.obl("destroy", c, "populated", des, where=w)

        parts = SPARSE.get(q, {})
        for gone in [g for n in range(1, len(parts) + 1) for g in itertools.combinations(sorted(parts), n)] if len(parts) < 4 else [(g,) for g in sorted(parts)] + [tuple(sorted(parts))]:
            def own(I, q=q, c=c, gone=gone, parts=parts):
                a = build(I, q, Values(I, 2000))
                ref = foreign(I, a, owned(I, a))
                for x in gone:
                    parts[x](I, a)
                was = sorted(short(o.dyn) for o in owned(I, a).values())
                do_copy(I, a, "assign", a)
                nothing_dead(I, a, "self-assignment of a " + c)
                now = sorted(short(o.dyn) for o in owned(I, a).values())
                if now != was:
                    raise Violated("assigned to itself, the %s without %s owns %s; before: %s" % (c, ", ".join(gone), now, was))
                ref = {i: o for i, o in list(ref.items()) + list(foreign(I, a, owned(I, a)).items()) if o.alive}
                I.delete(a)
                no_leak(I, ref.values(), "self-assignment of a " + c)
            if "assign" in copyable(p, q):
                chk.obl("assign", c, "to itself without " + ", ".join(gone), own, where=chk.loc(c, "operator="))
        for how in copyable(p, q):
            for order in ("source first", "copy first"):
                for onto in ("-",) if how != "assign" else ("new", "populated", "itself"):
                    if onto == "itself" and order == "copy first":
                        continue

                    def cp(I, q=q, c=c, how=how, order=order, onto=onto):
                        what = "%s of a %s" % (how, c)
                        a = build(I, q, Values(I, 2000))
                        b = None
                        if onto == "new":
                            b = I.make(q)
                        elif onto == "populated":
                            b = build(I, q, Values(I, 4001))
                        elif onto == "itself":
                            b = a
                        oldb = owned(I, b) if b is not None else {}
                        refb = foreign(I, b, oldb) if b is not None else {}
                        oa = owned(I, a)
                        b = do_copy(I, a, how, b)
                        if onto == "itself":
                            nothing_dead(I, a, "self-assignment of a " + c)
                            ref = foreign(I, a, owned(I, a))
                            I.delete(a)
                            no_leak(I, ref.values(), what)
                            return
                        ob = owned(I, b)
                        for i, o in ob.items():
                            if i in oa:
                                raise Violated("%s: the copy and its source own the same %s" % (what, short(o.cls)))
                        all_dead(I, {i: o for i, o in oldb.items() if i not in ob}, what + " onto a populated one")
                        all_alive(I, refb, what)
                        ra, rb = foreign(I, a, oa), foreign(I, b, ob)
                        for i, o in rb.items():
                            if i in oa:
                                raise Violated("%s: the copy refers to the %s of its source" % (what, short(o.cls)))
                        x, y, ox, oy = (a, b, oa, ob) if order == "source first" else (b, a, ob, oa)
                        before = describe(I, y)
                        I.delete(x)
                        nothing_dead(I, y, "%s, %s destroyed" % (what, order))
                        s = demand_same(before, describe(I, y), "%s, %s destroyed: the other" % (what, order))
                        all_dead(I, ox, "%s, %s destroyed" % (what, order))
                        I.delete(y)
                        all_dead(I, oy, what + ", both destroyed")
                        rest = dict(ra)
                        rest.update(rb)
                        rest.update(refb)
                        all_alive(I, rest, what)
                        no_leak(I, rest.values(), what + ", both destroyed")
                        return s
                    chk.obl("copy" if onto == "-" else "assign", c, "%s%s, %s" % (how, "" if onto == "-" else " onto " + onto, order), cp,
                            where=chk.loc(c, "copyFrom") or chk.loc(c, "operator=") or w)

        if any(m["kind"] == "ctor" and m["move"] and m["access"] == 0 and not m["del"] for m in p.cls[q].methods):
            for how, bare in (("construct", False), ("assign", False), ("construct", True), ("assign", True)):
                def mv(I, q=q, c=c, how=how, bare=bare):
                    a = bare_one(I, q) if bare else build(I, q, Values(I, 2000))
                    oa = owned(I, a)
                    d = describe(I, a)
                    if how == "construct":
                        b = I.copy_obj(a, q, True)
                        I.on_heap(b, "scenario")
                        oldb = {}
                    else:
                        b = build_other(I, q, Values(I, 4001))
                        oldb = owned(I, b)
                        I.assign(b, a, True)
                    rb = foreign(I, b, owned(I, b))
                    what = "moved %s" % c
                    all_dead(I, {i: o for i, o in oldb.items() if i not in owned(I, b) and i not in owned(I, a)}, what)
                    s = demand_same(d, describe(I, b), "the " + what)
                    I.delete(a)
                    nothing_dead(I, b, what + ", source destroyed")
                    s2 = demand_same(d, describe(I, b), "the " + what + " after its source was destroyed")
                    I.delete(b)
                    all_dead(I, oa, what + ", both destroyed")
                    return s if s is not None else s2
                chk.obl("move", c, how + (" of a default-constructed object" if bare else ""), mv, where=w)

        # ---- replacing single components
        sets = [(n, m, g) for n, m, g in settables(p, q) if m["pt"][0]["t"].rstrip().endswith("*")]
        if c == "Rule":
            sets += [(m["n"], m, m["n"].replace("set", "get")) for _, m in p.methods(q, "setAntecedent", 1) + p.methods(q, "setConsequent", 1)]
        if c == "Antecedent":
            sets += [(m["n"], m, m["n"].replace("set", "get")) for _, m in p.methods(q, "setExpression", 1)]
        for n, m, g in sets:
            isref = any(g in REFS.get(short(cq), ()) for cq in p.lin(q))
            for by in ("another", "none"):
                def rep(I, q=q, c=c, n=n, m=m, g=g, isref=isref, by=by):
                    V = Values(I, 2000)
                    o = build(I, q, V)
                    t = m["pt"][0]["t"].replace("const ", "").rstrip("* ")
                    x = V.component(FLN + "Proposition") if t.endswith("Expression") else V.component(t)
                    ref0 = foreign(I, o, owned(I, o))
                    set_by(I, o, m, x)
                    ref0.update(foreign(I, o, owned(I, o)))
                    ox = owned(I, x)
                    y = None if by == "none" else V.component(FLN + "Proposition") if t.endswith("Expression") else V.component(t)
                    oy = owned(I, y) if y is not None else {}
                    set_by(I, o, m, y)
                    what = "%s::%s" % (c, n)
                    if isref:
                        all_alive(I, ox, what)
                    else:
                        for z in ox.values():
                            if z.alive and z in I.heap:
                                raise Violated("%s does not release the %s it replaces" % (what, short(z.cls)))
                    if c == "FactoryManager" and y is None:
                        set_by(I, o, m, V.component(t))
                    I.delete(o)
                    if y is not None and isref:
                        all_alive(I, oy, what + ", owner destroyed")
                    elif y is not None:
                        for z in oy.values():
                            if z.alive and z in I.heap:
                                raise Violated("%s: the %s set is not released with its owner" % (what, short(z.cls)))
                    no_leak(I, list(ref0.values()) + ([x, y] if isref else []), what)
                chk.obl("replace", c + "::" + n, "by " + by, rep, where=chk.loc(c, n, 1))

    # ---- collections of owned components
    COLL = [("Engine", "InputVariable", "inputVariables"), ("Engine", "OutputVariable", "outputVariables"), ("Engine", "RuleBlock", "ruleBlocks"),
            ("InputVariable", "Term", "terms"), ("OutputVariable", "Term", "terms"), ("RuleBlock", "Rule", "rules")]
    for cls, el, lst in COLL:
        def coll(I, cls=cls, el=el, lst=lst):
            V = Values(I, 3000)
            o = I.make(cls)
            xs = [V.component(FLN + el) for _ in range(5)]
            for x in xs[:3]:
                I.call(o, "add" + el, x)
            if I.p.methods(o.cls, "insert" + el, 2):
                I.call(o, "insert" + el, xs[3], 1)
            else:
                I.call(o, "add" + el, xs[3])
            if I.p.methods(o.cls, "set" + el, 2):
                r = I.val(I.call(o, "set" + el, xs[4], 0))
                if isinstance(r, Obj) and r is not xs[0]:
                    raise Violated("set%s hands back another %s" % (el, el))
                if not xs[0].alive:
                    if isinstance(r, Obj):
                        raise Violated("set%s hands back a destroyed %s" % (el, el))
                elif not isinstance(r, Obj):
                    raise Violated("set%s neither releases nor hands back the %s it replaces" % (el, el))
            else:
                I.call(o, "add" + el, xs[4])
            held = [I.val(x) for x in I.val(I.call(o, lst)).x]
            r = I.val(I.call(o, "remove" + el, 1))
            if r is not held[1]:
                raise Violated("remove%s(1) hands back %s" % (el, show(r)))
            if not r.alive:
                raise Violated("remove%s hands back a destroyed %s" % (el, el))
            if r in [I.val(x) for x in I.val(I.call(o, lst)).x]:
                raise Violated("remove%s leaves the %s inside" % (el, el))
            held.remove(r)
            I.delete(o)
            if not r.alive:
                raise Violated("a removed %s is destroyed with its former owner" % el)
            for x in held:
                if x.alive:
                    raise Violated("a %s in the collection is not released with its owner" % el)
            no_leak(I, [x for x in xs if x.alive], "%s::%s" % (cls, lst))
        chk.obl("collections", cls + "::" + lst, "add, insert, set, remove", coll, where=chk.loc(cls, "remove" + el))

    def aggrem(I):
        V = Values(I, 3100)
        o = I.make("Aggregated")
        ts = [(V.component(FLN + "Term"), V.num(), V.component(FLN + "TNorm")) for _ in range(3)]
        for t in ts:
            I.call(o, "addTerm", *t)
        r = I.val(I.call(o, "removeTerm", 1))
        if not isinstance(r, Obj):
            raise Violated("removeTerm returns %s" % show(r))
        if not r.alive:
            raise Violated("removeTerm hands back a destroyed activated term")
        for g, v in (("getTerm", ts[1][0]), ("getDegree", ts[1][1]), ("getImplication", ts[1][2])):
            if agrees(I, query(I, r, g), v) is False:
                raise Violated("removeTerm(1) returns another term: %s() is %s" % (g, show(I.val(query(I, r, g)))))
        for t, d, n in ts:
            if not t.alive or not n.alive:
                raise Violated("removeTerm destroys a term or norm owned by someone else")
        I.call(o, "clear")
        I.delete(o)
        for t, d, n in ts:
            if not t.alive or not n.alive:
                raise Violated("an aggregated term destroys a term or norm owned by someone else")
    chk.obl("collections", "Aggregated::removeTerm", "middle", aggrem, where=chk.loc("Aggregated", "removeTerm"))

    # ---- reloading
    def ops(name, f, where):
        chk.obl("reload", name, "all", f, where=where)

    def heap_of(I):
        return {id(o) for o in I.heap}

    def reload_rules(I, how):
        e = rich_engine(I, Values(I, 2000), blocks=1, fuzzy=False)
        b = blocks_of(I, e)[0]
        rs = [I.val(x) for x in I.val(I.call(b, "rules")).x]
        old = {}
        for r in rs:
            for x in (I.get(r, "getAntecedent"), I.get(r, "getConsequent")):
                old.update({i: o for i, o in owned(I, x).items() if o is not x})
        if how == "unload":
            I.call(b, "unloadRules")
        elif how == "reload":
            I.call(b, "reloadRules", e)
        elif how == "load":
            I.call(b, "loadRules", e)
        elif how == "rule":
            for r in rs:
                I.call(r, "load", e)
        else:
            for r in rs:
                I.call(r, "unload")
        now = owned(I, e)
        all_dead(I, {i: o for i, o in old.items() if i not in now}, how + " of loaded rules")
        nothing_dead(I, e, how + " of loaded rules")
        no_leak(I, [e], how + " of loaded rules")
        I.delete(e)
        no_leak(I, [], how + " of loaded rules, engine destroyed")
    for how in ("unload", "reload", "load", "rule", "rule unload"):
        ops("RuleBlock: " + how, lambda I, how=how: reload_rules(I, how), chk.loc("RuleBlock", "reloadRules"))

    def refun(I, cls):
        o = I.make(cls)
        if cls == "Function":
            I.call(o, "load", "x + 2*sin(x)")
        elif cls == "HedgeFunction":
            I.call(o, "setFormula", "x*x")
        else:
            I.call(o, "setFormula", "a*b")
        old = owned(I, o)
        if cls == "Function":
            I.call(o, "load", "x - 1")
        else:
            I.call(o, "setFormula", "x-0.1" if cls == "HedgeFunction" else "a+b")
        now = owned(I, o)
        all_dead(I, {i: x for i, x in old.items() if i not in now}, "loading another formula into a " + cls)
        no_leak(I, [o], "loading another formula into a " + cls)
        if cls == "Function":
            I.call(o, "unload")
            no_leak(I, [o], "unloading a Function")
        I.delete(o)
        no_leak(I, [], cls)
    for cls in ("Function", "HedgeFunction", "TNormFunction", "SNormFunction"):
        ops(cls + ": load again", lambda I, cls=cls: refun(I, cls), chk.loc("Function", "load"))

    def reconf(I, kind):
        e = rich_engine(I, Values(I, 2000), fuzzy=False)
        before = owned(I, e)
        if kind == "names":
            I.call(e, "configure", "Minimum", "Maximum", "AlgebraicProduct", "EinsteinSum", "Centroid", "Proportional")
        elif kind == "none":
            I.call(e, "configure", "", "", "", "", "", "")
        else:
            V = Values(I, 5000)
            xs = [V.component(FLN + k) for k in ("TNorm", "SNorm", "TNorm", "SNorm", "Defuzzifier", "Activation")]
            I.call(e, "configure", *xs)
        now = owned(I, e)
        all_dead(I, {i: x for i, x in before.items() if i not in now}, "configuring an engine")
        nothing_dead(I, e, "configuring an engine")
        no_leak(I, [e], "configuring an engine")
        for b in blocks_of(I, e):
            for v in outs(I, e):
                pass
        I.delete(e)
        no_leak(I, [], "configuring and destroying an engine")
    for kind in ("names", "none", "objects"):
        ops("Engine::configure " + kind, lambda I, kind=kind: reconf(I, kind), chk.loc("Engine", "configure"))

    def cfg_empty(I):
        for n in (0, 1):
            e = I.make("Engine")
            if n:
                I.call(e, "addRuleBlock", I.make("RuleBlock"))
            V = Values(I, 5000)
            xs = [V.component(FLN + k) for k in ("TNorm", "SNorm", "TNorm", "SNorm", "Defuzzifier", "Activation")]
            I.call(e, "configure", *xs)
            no_leak(I, [e], "configuring an engine without %s" % ("output variables" if n else "components"))
            I.delete(e)
            no_leak(I, [], "configuring an engine without components")
    ops("Engine::configure without components", cfg_empty, chk.loc("Engine", "configure"))

    def regagain(I):
        f = I.make("FunctionFactory")
        old = I.get(f, "getObject", "sin")
        new = I.get(f, "cloneObject", "cos")
        I.call(f, "registerObject", "sin", new)
        if old.alive:
            raise Violated("registering an object under a used key does not release the one registered before")
        I.call(f, "registerObject", "sin", new)
        if not new.alive:
            raise Violated("registering the same object again destroys it")
        I.call(f, "clear")
        I.delete(f)
        no_leak(I, [], "a function factory")
    ops("CloningFactory::registerObject", regagain, chk.loc("CloningFactory", "registerObject"))

    def restart(I):
        e = rich_engine(I, Values(I, 2000))
        own = owned(I, e)
        for v in ins(I, e):
            pass
        I.call(e, "restart")
        now = owned(I, e)
        for i, o in own.items():
            if not o.alive and o.cls != FLN + "Activated":
                raise Violated("restarting an engine destroys a " + short(o.cls))
        nothing_dead(I, e, "restarting an engine")
        no_leak(I, [e], "restarting an engine")
    ops("Engine::restart", restart, chk.loc("Engine", "restart"))

    def proc(I):
        """Evaluating a copy whose source is gone."""
        e = rich_engine(I, Values(I, 2000), fuzzy=False, formulas=False)
        for b in blocks_of(I, e):
            I.call(b, "setActivation", None)
        for v in outs(I, e):
            I.call(v, "setDefuzzifier", None)
        d = I.val(I.call(e, "clone"))
        for b in blocks_of(I, e):
            I.call(b, "setActivation", None)
        I.delete(e)
        bs = blocks_of(I, d)
        for b in bs:
            I.call(b, "setEnabled", True)
            I.call(b, "activate")
        nothing_dead(I, d, "evaluating the rule blocks of a copy")
        no_leak(I, [d], "evaluating the rule blocks of a copy")
        I.delete(d)
        no_leak(I, [], "evaluating and destroying a copy")
    chk.obl("copy", "Engine", "evaluate after the source is gone", proc, limit=64, where=chk.loc("Engine", "copyFrom"))
    return ("Interprets construction, copies, assignments, moves, replacement and destruction of every concrete class on an explicit heap: every delete, access and reachability "
            "question is decided on abstract objects, so double releases, accesses after release, leaks and shared ownership are reported at the construct that causes them.")
