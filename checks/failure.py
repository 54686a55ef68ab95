"""C21: what failed loading, importing and configuring leave behind."""
import random
from flai import num as N
from flai.check import AnalysisBroken, Violated, Undecided, CppThrow, Obj
from flai.interp import Cell
from .fuzzy import FLN, expect_throw
from .objects import Values, describe, demand_same, short, concrete, NAMES
from .copies import rich_engine, no_leak, nothing_dead, blocks_of, owned, all_dead
from .texts import malformed, importer, DOC, FIS_DOC, FLL_DOC, FCL_DOC
from .rules import fld

RULES = ("if in1 is very a and ( in2 is not seldom b or in1 is any ) then out1 is x and out2 is somewhat y with 0.5", "if in1 is a then out2 is x")
SWAP = ("unknown", "is", "and", "(", ")", "then", "with", "very", "any", "a", "in1", "out1", "0.5")
FORMULA = "( in1 + sin ( in2 ) ) * max ( 2 , in1 ^ 3 ) - ~ in2"
FSWAP = ("unknown", "(", ")", ",", "+", "~", "sin", "max", "in1", "2", "*", "&")


def mutations(text, swap):
    """Texts that differ from the given one in one place."""
    t = text.split()
    seen = {text}
    for k in range(len(t) + 1):
        todo = [t[:k]]
        if k < len(t):
            todo += [t[k:], t[:k] + t[k + 1:], t[:k] + [t[k], t[k]] + t[k + 1:]]
            todo += [t[:k] + [s] + t[k + 1:] for s in swap]
            if k + 1 < len(t):
                todo.append(t[:k] + [t[k + 1], t[k]] + t[k + 2:])
        todo += [t[:k] + [s] + t[k:] for s in swap]
        for x in todo:
            s = " ".join(x)
            if s not in seen:
                seen.add(s)
                yield s


def fails(I, f):
    """Does f raise? Only library exceptions are allowed."""
    try:
        f()
    except CppThrow as e:
        o = e.obj
        if not (isinstance(o, Obj) and I.p.is_a(o.cls, FLN + "Exception")):
            raise Violated("raises %s instead of a fuzzylite exception" % (o.cls if isinstance(o, Obj) else "something"))
        return True
    return False


def unloaded(I, r, what):
    if I.truth(I.get(r, "isLoaded")):
        raise Violated("%s, the rule reports loaded" % what)
    a, c = I.get(r, "getAntecedent"), I.get(r, "getConsequent")
    if a is not None and (I.truth(I.get(a, "isLoaded")) or I.get(a, "getExpression") is not None):
        raise Violated("%s, the rule keeps an antecedent" % what)
    if c is not None and I.call(c, "conclusions").x:
        raise Violated("%s, the rule keeps %d conclusions" % (what, len(I.call(c, "conclusions").x)))


def c21(chk):
    I, p = chk.I, chk.p
    rng = random.Random(chk.seed)
    chk.rule("rule", "a rule whose loading fails is not loaded, holds no antecedent and no conclusions, leaks nothing, refers to nothing destroyed, and loads a good text afterwards as a new rule does")
    chk.rule("formula", "a formula whose loading fails leaks nothing and leaves either no tree or that of the whole formula")
    chk.rule("configure", "configuring an engine with an unknown name at any position raises, leaks nothing and leaves the engine as it was")
    chk.rule("import", "an import that fails releases everything it allocated; rules it could not load stay unloaded in the imported engine")
    chk.rule("construct", "constructors and creators that fail release what they allocated")
    small = lambda I: rich_engine(I, flip=False, fuzzy=False, formulas=False, blocks=1, weights=False)

    # ---- rules
    texts = list(mutations(RULES[0], SWAP))
    texts += ["", " ", "#", "if", "then", "with", "if then with", RULES[0] + " # note"]
    must = 0
    pick = texts if chk.thorough else rng.sample(texts, 260)
    for n, t in enumerate(sorted(set(pick))):
        for before in (("fresh", "loaded") if chk.thorough else (("fresh", "loaded")[n % 2],)):
            def rule(I, t=t, before=before):
                e = small(I)
                r = I.make("Rule")
                if before == "loaded":
                    I.call(r, "load", RULES[0], e)
                if not fails(I, lambda: I.call(r, "load", t, e)):
                    if not I.truth(I.get(r, "isLoaded")):
                        raise Violated("loading `%s` raises nothing but the rule is not loaded" % t)
                else:
                    w = "after failing to load `%s` into a %s rule" % (t, before)
                    unloaded(I, r, w)
                    nothing_dead(I, r, w)
                    no_leak(I, [e, r], w)
                    I.call(r, "load", RULES[1], e)
                    q = I.make("Rule")
                    I.call(q, "load", RULES[1], e)
                    s = demand_same(describe(I, q), describe(I, r), w + " and then loading a good text, the rule")
                    I.delete(q)
                    I.delete(r)
                    no_leak(I, [e], w + " and destroying the rule")
                    return s
            chk.obl("rule", "Rule::load", "`%s` into a %s rule" % (t, before), rule, where=chk.loc("Rule", "load", 2))

        if n % 3 == 0 or chk.thorough:
            def parse(I, t=t):
                e = small(I)
                try:
                    r = I.val(I.scall(FLN + "Rule::parse", t, e))
                except CppThrow:
                    no_leak(I, [e], "after failing to parse `%s`" % t)
                    return
                I.delete(r)
                no_leak(I, [e], "after destroying the rule parsed from `%s`" % t)
            chk.obl("rule", "Rule::parse", "`%s`" % t, parse, where=chk.loc("Rule", "parse"))
    for cls, good in (("Antecedent", "in1 is very a and ( in2 is not seldom b or in1 is any )"), ("Consequent", "out1 is x and out2 is very somewhat y")):
        ms = list(mutations(good, SWAP))
        loose = ["in1 is a in2 is b", "in1 is a in2 is very b in1 is any", "in1 is a and in2 is b in1 is a", "in1 is a in2 is b and in1 is a", "in1 is a in2 is"] if cls == "Antecedent" else []
        for t in loose + (ms if chk.thorough else rng.sample(ms, 50)):
            def part(I, cls=cls, t=t, good=good):
                e = small(I)
                a = I.make(cls)
                I.call(a, "load", good, e)
                w = "after failing to load the %s `%s`" % (cls.lower(), t)
                if fails(I, lambda: I.call(a, "load", t, e)):
                    nothing_dead(I, a, w)
                    no_leak(I, [e, a], w)
                    if cls == "Antecedent" and I.truth(I.get(a, "isLoaded")) and describe_text(I, a) is None:
                        raise Violated(w + ", it is half loaded")
                    if cls == "Consequent":
                        for c in I.call(a, "conclusions").x:
                            c = I.val(c)
                            if fld(I, c, "variable") is None or fld(I, c, "term") is None:
                                raise Violated(w + ", it keeps a conclusion without variable or term")
                I.delete(a)
                no_leak(I, [e], w + " and destroying it")
            chk.obl("rule", cls + "::load", "`%s`" % t, part, where=chk.loc(cls, "load"))
    for texts_ in ((RULES[0], "if", RULES[1]), ("x", RULES[1] + " and", RULES[0]), (RULES[0], RULES[1])):
        for f in ("loadRules", "reloadRules"):
            def block(I, texts_=texts_, f=f):
                e = small(I)
                b = blocks_of(I, e)[0]
                while I.val(I.call(b, "numberOfRules")):
                    I.delete(I.val(I.call(b, "removeRule", 0)))
                rs = []
                for t in texts_:
                    r = I.make("Rule")
                    I.call(r, "setText", t)
                    I.call(b, "addRule", r)
                    rs.append(r)
                bad = fails(I, lambda: I.call(b, f, e))
                if bad != any(t not in RULES for t in texts_):
                    raise Violated("%s with the rules %s %s" % (f, texts_, "raises" if bad else "raises nothing"))
                for r, t in zip(rs, texts_):
                    if t in RULES:
                        if not I.truth(I.get(r, "isLoaded")):
                            raise Violated("%s leaves the good rule `%s` not loaded" % (f, t))
                    else:
                        unloaded(I, r, "after " + f)
                nothing_dead(I, e, "after " + f)
                no_leak(I, [e], "after " + f)
                I.delete(e)
                no_leak(I, [], "after %s and destroying the engine" % f)
            chk.obl("rule", "RuleBlock::" + f, str(texts_), block, where=chk.loc("RuleBlock", f))

    # ---- formulas
    fs = list(mutations(FORMULA, FSWAP)) + ["", " ", "(", ")", ",", "+", "sin", "sin(", "1 2", "a b", "max(1,2,3)", "()", "1 + + 2", "in1 in2 +"]
    for n, t in enumerate(sorted(set(fs if chk.thorough else rng.sample(fs, 200)))):
        before = ("fresh", "loaded")[n % 2]

        def formula(I, t=t, before=before):
            e = small(I)
            f = I.make("Function")
            if before == "loaded":
                I.call(f, "load", FORMULA, e)
            w = "after failing to load the formula `%s` into a %s function" % (t, before)
            if fails(I, lambda: I.call(f, "load", t, e)):
                nothing_dead(I, f, w)
                no_leak(I, [e, f], w)
                if I.truth(I.get(f, "isLoaded")):
                    # complete, although a variable of it is unknown
                    g = I.make("Function")
                    node = I.val(I.call(g, "parse", t))
                    a, b = I.get(I.get(f, "root"), "toPrefix"), I.get(node, "toPrefix")
                    if a != b:
                        raise Violated("%s, the function is loaded with %s" % (w, a))
                    I.delete(node)
                    I.delete(g)
                I.call(f, "load", "in1 + 1", e)
                if not I.truth(I.get(f, "isLoaded")):
                    raise Violated(w + ", it does not load a good formula")
            I.delete(f)
            no_leak(I, [e], w + " and destroying it")
        chk.obl("formula", "Function::load", "`%s` into a %s function" % (t, before), formula, where=chk.loc("Function", "load", 2))

        def create(I, t=t):
            e = small(I)
            try:
                f = I.val(I.scall(FLN + "Function::create", "f", t, e))
            except CppThrow:
                no_leak(I, [e], "after failing to create a function of `%s`" % t)
                return
            I.delete(f)
            no_leak(I, [e], "after creating and destroying a function of `%s`" % t)

        def parse(I, t=t):
            f = I.make("Function")
            try:
                r = I.val(I.call(f, "parse", t))
            except CppThrow:
                no_leak(I, [f], "after failing to parse `%s`" % t)
                return
            if r is not None:
                nothing_dead(I, r, "after parsing `%s`" % t)
                I.delete(r)
            no_leak(I, [f], "after destroying what was parsed from `%s`" % t)
        chk.obl("formula", "Function::create", "`%s`" % t, create, where=chk.loc("Function", "create"))
        chk.obl("formula", "Function::parse", "`%s`" % t, parse, where=chk.loc("Function", "parse"))

    # ---- configuring
    good = ["Minimum", "Maximum", "Minimum", "Maximum", "Centroid", "General"]
    for k in range(6):
        for bad in ("Unknown", good[(k + 1) % 6] if k not in (0, 2) else "Maximum", "minimum", " ", "none"):
            def conf(I, k=k, bad=bad):
                e = rich_engine(I, blocks=2)
                d = describe(I, e)
                args = list(good)
                args[k] = bad
                expect_throw(I, lambda: I.call(e, "configure", *args), "configuring with %r as argument %d" % (bad, k + 1))
                nothing_dead(I, e, "after failing to configure")
                no_leak(I, [e], "after failing to configure with %r as argument %d" % (bad, k + 1))
                return demand_same(d, describe(I, e), "after failing to configure, the engine")
            chk.obl("configure", "Engine::configure", "%r at %d" % (bad, k + 1), conf, where=chk.loc("Engine", "configure", 6))

    # ---- importing
    for fmt in ("FLL", "FIS", "FCL"):
        ms = malformed(fmt)
        for c, t in ms if chk.thorough or len(ms) < 260 else rng.sample(ms, 260):
            def imp(I, fmt=fmt, t=t):
                i = importer(I, fmt)
                if fails(I, lambda: I.call(i, "fromString", t)):
                    no_leak(I, [i], "after the failed import")
            chk.obl("import", short(FLN + {"FLL": "FllImporter", "FIS": "FisImporter", "FCL": "FclImporter"}[fmt]), c, imp, where=chk.loc({"FLL": "FllImporter", "FIS": "FisImporter", "FCL": "FclImporter"}[fmt], "fromString"))
        for old, new in {"FLL": (("if in1 is very a and", "if in1 is very a or and"), ("then out1 is x", "then out1 is unknown"), ("if in1 is b then out2 is l", "if in1 is b then"), (" with 0.500", " with abc")),
                         "FIS": (("1.2 -1, 1 0", "1.2 -1, 0 0"), ("1.2 -1, 1 0", "0 0, 1 0")),
                         "FCL": (("if in1 is very a and", "if in1 is very a or and"), ("then out1 is x", "then out1 is unknown"), ("if in1 is b then out2 is l", "if in1 is b then"), (" with 0.500", " with abc"))}[fmt]:
            def kept(I, fmt=fmt, old=old, new=new):
                d = DOC[fmt]
                if old not in d:
                    raise AnalysisBroken("no %r in the %s document" % (old, fmt))
                i = importer(I, fmt)
                try:
                    e = I.val(I.call(i, "fromString", d.replace(old, new)))
                except CppThrow:
                    no_leak(I, [i], "after the failed import")
                    return
                n = 0
                for b in blocks_of(I, e):
                    for r in I.val(I.call(b, "rules")).x:
                        r = I.val(r)
                        if not I.truth(I.get(r, "isLoaded")):
                            unloaded(I, r, "imported from `%s`" % new)
                            n += 1
                if n != 1:
                    raise Violated("importing a text with one malformed rule, %d rules are not loaded" % n)
                nothing_dead(I, e, "after the import")
                no_leak(I, [i, e], "after the import")
                I.delete(e)
                no_leak(I, [i], "after destroying the imported engine")
            chk.obl("import", {"FLL": "FllImporter", "FIS": "FisImporter", "FCL": "FclImporter"}[fmt], "a rule with %r" % new, kept, where=chk.loc({"FLL": "FllImporter", "FIS": "FisImporter", "FCL": "FclImporter"}[fmt], "fromString"))

        def whole(I, fmt=fmt):
            i = importer(I, fmt)
            e = I.val(I.call(i, "fromString", DOC[fmt]))
            no_leak(I, [i, e], "after the import")
            I.delete(e)
            no_leak(I, [i], "after destroying the imported engine")
        chk.obl("import", {"FLL": "FllImporter", "FIS": "FisImporter", "FCL": "FclImporter"}[fmt], "well-formed", whole)

        def nofile(I, fmt=fmt):
            i = importer(I, fmt)
            expect_throw(I, lambda: I.call(i, "fromFile", "/no/such/file"), "importing from a file that does not exist")
            no_leak(I, [i], "after the failed import")
        chk.obl("import", {"FLL": "FllImporter", "FIS": "FisImporter", "FCL": "FclImporter"}[fmt], "no file", nofile)

    # ---- constructors, creators, configure of terms and activation methods
    def construct(cls, *args):
        def f(I):
            if not fails(I, lambda: I.make(cls, *args)):
                return "does not fail"
            no_leak(I, [], "after failing to construct a %s of %s" % (cls, list(args)))
        chk.obl("construct", cls, str(args), f, where=chk.loc(cls))
    for c in ("HedgeFunction", "TNormFunction", "SNormFunction"):
        for t in ("1 +", "(", "a b +)", "sin("):
            construct(c, t)
    construct("Threshold", "=>", 0.5)
    for q in concrete(p):
        c = short(q)
        if not (p.is_a(q, FLN + "Term") or p.is_a(q, FLN + "Activation")) or c in ("Activated", "Aggregated"):
            continue
        for t in ("abc", "1 abc", "1 2 abc", "1 2 3 abc", "1 2 3 4 abc", "> abc", "1 2 3 4 5 6 abc", "1 +", "("):
            def cfg(I, c=c, t=t):
                o = I.make(c)
                fails(I, lambda: I.call(o, "configure", t))
                nothing_dead(I, o, "after configuring with %r" % t)
                no_leak(I, [o], "after configuring with %r" % t)
                I.delete(o)
                no_leak(I, [], "after configuring with %r and destroying" % t)
            chk.obl("construct", c + "::configure", t, cfg, where=chk.loc(c, "configure", 1))

    def lin(I):
        if fails(I, lambda: I.scall(FLN + "Linear::create", "l", None, 1.0)):
            no_leak(I, [], "after failing to create a linear term")
    chk.obl("construct", "Linear::create", "no engine", lin)
    for kind in ("tnorm", "snorm", "hedge", "activation", "defuzzifier", "term"):
        def fac(I, kind=kind):
            m = I.val(I.scall(FLN + "FactoryManager::instance"))
            f = I.val(I.call(m, kind))
            expect_throw(I, lambda: I.call(f, "constructObject", "Unknown"), "constructing an unknown name")
            no_leak(I, [], "after failing to construct")
        chk.obl("construct", "FactoryManager::" + kind, "unknown name", fac)
    return ("Interprets loading, parsing, configuring and importing over texts that differ from well-formed ones in one token, line or name, and inspects the abstract heap after every exception: "
            "what is allocated and not reachable, what is reachable and destroyed, and what is half loaded.")


def describe_text(I, a):
    try:
        return I.get(a, "toString")
    except CppThrow:
        return None
