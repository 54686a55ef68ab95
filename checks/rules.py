"""C18: rule grammar.  C21: failed loading and importing."""
import itertools, random
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool, UB, Cell
from .fuzzy import World, expect, expect_throw, FLN

HEDGES = ("any", "extremely", "not", "seldom", "somewhat", "very")


def fld(I, o, name):
    """Plain value of a data member."""
    v = o.get(name)
    while v.__class__ is Cell:
        v = v.v
    if hasattr(v, "p") and v.__class__ is I.std.UPtr:
        v = v.p
    return I.val(v)


def world(I, W):
    e = I.make("Engine", "e")
    for i in range(2):
        I.call(e, "addInputVariable", W.input("i%d" % i, [W.term(t) for t in ("low", "mid", "high")]))
    for i in range(2):
        I.call(e, "addOutputVariable", W.output("o%d" % i, [W.term(t) for t in ("small", "big")]))
    return e


VARS = {"i0": ("low", "mid", "high"), "i1": ("low", "mid", "high"), "o0": ("small", "big"), "o1": ("small", "big")}


def prop_text(p):
    v, hs, t = p
    return " ".join([v, "is"] + list(hs) + ([t] if t else []))


def tree_text(t, prec=0, full=False):
    if len(t) == 3 and t[0] in VARS:
        return prop_text(t)
    op, a, b = t
    p = {"or": 1, "and": 2}[op]
    s = "%s %s %s" % (tree_text(a, p, full), op, tree_text(b, p + 1, full))
    return "(%s)" % s if p < prec or full else s


def structure(I, x):
    if x is None:
        return None
    if I.p.is_a(x.cls, FLN + "Proposition"):
        v, t = fld(I, x, "variable"), fld(I, x, "term")
        hs = [I.get(I.val(h), "name") for h in x.get("hedges").x]
        return (v, tuple(hs), t)
    return (fld(I, x, "name"), structure(I, fld(I, x, "left")), structure(I, fld(I, x, "right")))


def specified(I, e, t):
    if len(t) == 3 and t[0] in VARS:
        v, hs, tn = t
        var = I.get(e, "getInputVariable" if v[0] == "i" else "getOutputVariable", v)
        return (var, tuple(hs), I.get(var, "getTerm", tn) if tn else None)
    return (t[0], specified(I, e, t[1]), specified(I, e, t[2]))


def same_tree(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_tree(x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    return a == b


# --------------------------------------------------------------------------- the documented grammar, on token lists
def propositions(tok, outputs_only):
    """Parse `v is h* t` propositions from a token list without connectives and parentheses; None if it is not such a list."""
    i, out = 0, []
    while i < len(tok):
        if tok[i] not in VARS or (outputs_only and tok[i][0] != "o"):
            return None
        v = tok[i]
        if i + 1 >= len(tok) or tok[i + 1] != "is":
            return None
        i += 2
        hs = []
        while i < len(tok) and tok[i] in HEDGES:
            hs.append(tok[i])
            i += 1
            if hs[-1] == "any" and not outputs_only:
                break
        if hs and hs[-1] == "any" and not outputs_only:
            out.append((v, tuple(hs), None))
            continue
        if i >= len(tok) or tok[i] not in VARS[v]:
            return None
        out.append((v, tuple(hs), tok[i]))
        i += 1
    return out


def lenient(tok):
    """Could this antecedent be read by the documented state machine at all (connectives and parentheses anywhere)?"""
    depth = 0
    for t in tok:
        depth += t == "("
        depth -= t == ")"
        if depth < 0 or (t == "," and depth == 0):
            return False
    if depth:
        return False
    core = [t for t in tok if t not in ("(", ")", "and", "or", ",")]
    ps = propositions(core, False)
    return bool(ps) and sum(t in ("and", "or") for t in tok) == len(ps) - 1


def c18(chk):
    chk.rule("structure", "a rule loads into exactly the expression its text spells: precedence of `and` over `or`, parentheses, hedges in order, variables and terms by name; it is written back in prefix, infix and postfix order with every part")
    chk.rule("conclusions", "the consequent is the list of its conclusions in order")
    chk.rule("weight", "the weight after `with` is the rule's weight, otherwise 1")
    chk.rule("rejected", "text outside the grammar or naming unknown components raises a fuzzylite exception and leaves the rule not loaded")
    chk.rule("loading", "a loaded rule reports loaded; unloading, or failing to load again, makes it not loaded")
    chk.rule("connectives", "connectives stand between propositions")
    I, W = chk.I, World(chk)
    rng = random.Random(chk.seed)
    wa, wc, wr = chk.loc("Antecedent", "load", 2), chk.loc("Consequent", "load", 2), chk.loc("Rule", "load", 2)

    def prop(outputs=True, any_ok=True):
        v = rng.choice(list(VARS) if outputs else ["i0", "i1"])
        r = rng.random()
        if any_ok and r < 0.12:
            return (v, ("any",), None)
        if any_ok and r < 0.18:
            return (v, ("not", "any"), None)
        hs = tuple(rng.choice(HEDGES[1:]) for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3))))
        return (v, hs, rng.choice(VARS[v]))

    def grow(d):
        if d == 0 or rng.random() < 0.25:
            return prop()
        return (rng.choice(("and", "or")), grow(d - 1), grow(d - 1))
    P = [("i0", (), "low"), ("i1", ("very",), "mid"), ("o0", ("not", "very"), "big"), ("i1", ("any",), None)]
    trees = list(P)
    for a, b in itertools.product(("and", "or"), repeat=2):
        trees += [(a, (b, P[0], P[1]), P[2]), (a, P[0], (b, P[1], P[2]))]
        for c in ("and", "or"):
            trees += [(c, (a, P[0], P[1]), (b, P[2], P[3])), (c, (a, (b, P[0], P[1]), P[2]), P[3]), (c, P[0], (a, P[1], (b, P[2], P[3])))]
    for h in HEDGES[1:]:
        trees += [("i0", (h,), "low"), ("i0", (h, "any"), None), ("o1", (h, "not", h), "small")]
    trees += [grow(rng.choice((2, 3, 3, 4))) for _ in range(300 if chk.thorough else 60)]
    cons = [[("o0", (), "small")], [("o0", (), "small"), ("o1", (), "big")], [("o1", ("very",), "small"), ("o0", ("not", "somewhat"), "big"), ("o1", (), "big")],
            [("o0", ("any",), "small")], [("o0", ("any", "not"), "big"), ("o0", (), "big")]]
    seen = set()
    for t in trees:
        for full in (False, True):
            txt = tree_text(t, 0, full)
            if txt in seen:
                continue
            seen.add(txt)
            spaced = rng.random() < 0.5
            if spaced:
                txt2 = "  " + txt.replace("(", " ( ").replace(")", " )\t")
            else:
                txt2 = txt
            cc = rng.choice(cons)

            def sc(I):
                e = world(I, W)
                r = I.make("Rule")
                I.call(r, "load", "if %s then %s" % (txt2, " and ".join(prop_text(p) for p in cc)), e)
                if not I.truth(I.get(r, "isLoaded")):
                    raise Violated("the rule is not loaded")
                got = structure(I, I.get(I.get(r, "getAntecedent"), "getExpression"))
                want = specified(I, e, t)
                if not same_tree(got, want):
                    raise Violated("`%s` loads as %s, it spells %s" % (txt2, show(got), show(want)))
                con = [structure(I, I.val(p)) for p in I.call(I.get(r, "getConsequent"), "conclusions").x]
                wantc = [specified(I, e, p) for p in cc]
                if len(con) != len(wantc) or not all(same_tree(a, b) for a, b in zip(con, wantc)):
                    raise Violated("conclusions %s, specified %s" % (show(con), show(wantc)))
                for cls, text, read, want_ in (("Antecedent", txt2, lambda o: [structure(I, I.get(o, "getExpression"))], [want]),
                                               ("Consequent", " and ".join(prop_text(p) for p in cc), lambda o: [structure(I, I.val(p)) for p in I.call(o, "conclusions").x], wantc)):
                    o = I.make(cls)
                    I.call(o, "setText", text)
                    I.call(o, "load", e)
                    got = read(o)
                    if not I.truth(I.get(o, "isLoaded")) or len(got) != len(want_) or not all(same_tree(a, b) for a, b in zip(got, want_)):
                        raise Violated("%s of the text `%s` given beforehand loads as %s" % (cls, text, show(got)))
                    I.delete(o)
                ant = I.get(r, "getAntecedent")

                def order(t, k):
                    if len(t) == 3 and t[0] in VARS:
                        return prop_text(t).split()
                    parts = [order(t[1], k), order(t[2], k)]
                    parts.insert(k, [t[0]])
                    return sum(parts, [])
                for q, k in (("toPrefix", 0), ("toInfix", 1), ("toPostfix", 2), ("toString", 1)):
                    m = I.p.methods(ant.dyn, q, 1 if q != "toString" else 0)
                    if not m:
                        continue
                    x = I.get(ant, q, None) if q != "toString" else I.get(ant, q)
                    x = x.v if hasattr(x, "v") else x
                    if x.split() != order(t, k):
                        raise Violated("`%s` is written by %s as `%s`" % (txt2, q, show(x)))
                x = I.get(I.get(r, "getConsequent"), "toString")
                x = x.v if hasattr(x, "v") else x
                if x.split() != " and ".join(prop_text(p) for p in cc).split():
                    raise Violated("the consequent is written as `%s`" % show(x))
                I.delete(r)
                if [o for o in I.leaks([e])]:
                    raise Violated("destroying the rule leaves %s allocated" % show(I.leaks([e])))
            chk.obl("structure", "Antecedent::load", txt + (" (spaced)" if spaced else ""), sc, where=wa)
    for i, cc in enumerate(cons):
        def sc(I):
            e = world(I, W)
            r = I.make("Rule")
            I.call(r, "load", "if i0 is low then %s" % " and ".join(prop_text(p) for p in cc), e)
            con = [structure(I, I.val(p)) for p in I.call(I.get(r, "getConsequent"), "conclusions").x]
            wantc = [specified(I, e, p) for p in cc]
            if len(con) != len(wantc) or not all(same_tree(a, b) for a, b in zip(con, wantc)):
                raise Violated("conclusions %s, specified %s" % (show(con), show(wantc)))
        chk.obl("conclusions", "Consequent::load", " and ".join(prop_text(p) for p in cc), sc, where=wc)
    # weight: an opaque number printed by the library, and fixed texts
    w = N.leaf("weight", 0.2, 0.9)
    for how in ("opaque", "none", "comment", "0.25", "1", "0", "reload", "weight then none"):
        def sc(I):
            e = world(I, W)
            r = I.make("Rule")
            base = "if i0 is low then o0 is big"
            if how == "opaque":
                a = I.val(I.scall(FLN + "Operation::str", w)) if False else None
                f = [q for q in I.p.byname[FLN + "Operation::str"] if q["params"][0]["t"] == "double"][0]
                a = I.val(I.call_uid(f["u"], None, [w] + I.default_args(f["u"], 1)))
                txt, want = base + " with " + a, w
            elif how == "comment":
                txt, want = base + " # with 0.5 and more", 1.0
            elif how in ("none", "reload", "weight then none"):
                txt, want = base, 1.0
            else:
                txt, want = base + " with " + how, float(how)
            if how == "reload":
                I.call(r, "load", "if i1 is mid then o1 is small with 0.7", e)
            if how == "weight then none":
                I.call(r, "setWeight", 0.3)
            I.call(r, "load", txt, e)
            expect(I.get(r, "getWeight"), want, "weight of `%s`" % show(txt))
            if I.get(r, "getText") != txt:
                raise Violated("text is %s" % show(I.get(r, "getText")))
            if how == "reload":
                got = structure(I, I.get(I.get(r, "getAntecedent"), "getExpression"))
                if not same_tree(got, specified(I, e, ("i0", (), "low"))):
                    raise Violated("loading again keeps %s" % show(got))
                if len(I.call(I.get(r, "getConsequent"), "conclusions").x) != 1:
                    raise Violated("loading again keeps old conclusions")
        chk.obl("weight", "Rule::load", how, sc, where=wr)
    # rejected
    A, C = "i0 is low", "o0 is big"
    bad = ["", " ", "i0 is low then o0 is big", "if", "if i0 is low", "if then", "if i0 is low then", "if then o0 is big", "then o0 is big", "if i0 is low o0 is big",
           "if i0 is low then o0 is big with", "if i0 is low then o0 is big with x", "if i0 is low then o0 is big with 0.5 0.5", "if i0 is low then o0 is big with 0.5 then",
           "if i0 is low then o0 is big with 0.5 and o1 is big", "with 0.5", "# if i0 is low then o0 is big", "if if i0 is low then o0 is big", "rule if i0 is low then o0 is big",
           "if i0 is low then then o0 is big", "if i0 is low with 0.5 then o0 is big", "IF i0 is low THEN o0 is big"]
    ants = ["i0", "i0 is", "is low", "i0 low", "i0 is low and", "and i0 is low", "i0 is low or", "i0 is unknown", "unknown is low", "i0 is very", "i0 is very unknown", "i0 is low mid",
            "i0 is low is mid", "i0 is is low", "(i0 is low", "i0 is low)", "((i0 is low)", "i0 is low i1 is mid", "i0 is low, i1 is mid", "()", "(", ")", "i0 is low and and i1 is mid",
            "i0 is any low", "i0 is very any low", "i0 any", "i0 is small", "o0 is low", "low is i0", "i0 = low", "i0 is low and i1", "i0 is low and i1 is", "i0 is low and (i1 is mid", "not i0 is low",
            "i0 not is low", "i0 is low not", "i0 is low xor i1 is mid", "i0 is low and low", "i0 is low or mid", "3", "i0 is 3", "i0 is low and i1 is mid and", "any", "very", "i0 i1 is low", "i0 is low and or i1 is mid",
            "i0 is low i1 is mid i0 is high zzz", "i0 is low i1 is mid and is", "i0 is low and i1 is mid or", "i0 is low i0 is mid i1 is low and"]
    conss = ["o0", "o0 is", "is big", "o0 big", "o0 is big and", "and o0 is big", "o0 is big or o1 is big", "o0 is unknown", "unknown is big", "i0 is low", "o0 is very", "o0 is any", "o0 is big small",
             "o0 is big o1 is big", "(o0 is big)", "o0 is big, o1 is big", "o0 is big and o1", "o0 is big and o1 is", "o0 is big and and o1 is big", "o0 is very unknown", "o0 = big", "o0 is low", "not o0 is big",
             "o0 is big and i0 is low", "o0 is big and o1 is very", "3", "o0 is is big"]
    for t in bad + ["if %s then %s" % (a, C) for a in ants] + ["if %s then %s" % (A, c) for c in conss]:
        for before in ("fresh", "loaded"):
            def sc(I):
                e = world(I, W)
                r = I.make("Rule")
                if before == "loaded":
                    I.call(r, "load", "if i1 is very mid and i0 is high then o1 is small and o0 is big with 0.5", e)
                expect_throw(I, lambda: I.call(r, "load", t, e), "loading `%s`" % t)
                if I.truth(I.get(r, "isLoaded")):
                    raise Violated("after failing to load `%s` the rule reports loaded" % t)
                expect_throw(I, lambda: I.call(r, "activateWith", None, None), "activating a rule that failed to load")
                expect_throw(I, lambda: I.call(r, "trigger", None), "triggering a rule that failed to load")
            if before == "loaded" and not chk.thorough and rng.random() < 0.6:
                continue
            chk.obl("rejected", "Rule::load", "`%s` into a %s rule" % (t, before), sc, where=wr)
    # token mutations of valid rules
    toks = ["i0", "i1", "o0", "is", "very", "not", "any", "low", "mid", "small", "and", "or", "(", ")", ",", "then", "unknown"]
    for k in range(900 if chk.thorough else 150):
        t = tree_text(grow(3)).replace("(", "( ").replace(")", " )").split()
        for _ in range(rng.choice((1, 1, 2))):
            i = rng.randrange(len(t))
            r = rng.random()
            if r < 0.35:
                del t[i]
            elif r < 0.6:
                t.insert(i, rng.choice(toks))
            elif r < 0.8:
                t[i] = rng.choice(toks)
            else:
                j = rng.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            if not t:
                t = ["is"]
        if "then" in t:
            continue
        ok = lenient(t)
        txt = "if %s then o0 is big" % " ".join(t)
        if ok:
            continue          # a valid rule, or connectives in unusual places

        def sc(I):
            e = world(I, W)
            r = I.make("Rule")
            expect_throw(I, lambda: I.call(r, "load", txt, e), "loading `%s`" % txt)
            if I.truth(I.get(r, "isLoaded")):
                raise Violated("after failing to load `%s` the rule reports loaded" % txt)
        chk.obl("rejected", "Rule::load", "mutation `%s`" % " ".join(t), sc, where=wr)
    for k, t in (("postfix", "i0 is low i1 is mid and"), ("prefix", "and i0 is low i1 is mid"), ("inside a proposition", "i0 is and low i1 is mid"), ("parenthesis inside a proposition", "i0 ( is low )"),
                 ("comma inside parentheses", "( i0 is low , and i1 is mid )")):
        def sc(I):
            e = world(I, W)
            r = I.make("Rule")
            expect_throw(I, lambda: I.call(r, "load", "if %s then o0 is big" % t, e), "loading the antecedent `%s`" % t)
        chk.obl("connectives", "Antecedent::load", k, sc, where=wa)
    for how in ("unload", "never", "parse", "antecedent unload", "consequent unload", "reload own text"):
        def sc(I):
            e = world(I, W)
            txt = "if i0 is low then o0 is big with 0.5"
            if how == "parse":
                r = I.val(I.scall(FLN + "Rule::parse", txt, e))
                if not I.truth(I.get(r, "isLoaded")) or I.get(r, "getText") != txt:
                    raise Violated("parse returns a rule that is not loaded")
                expect(I.get(r, "getWeight"), 0.5, "weight")
                return
            r = I.make("Rule")
            if how == "never":
                if I.truth(I.get(r, "isLoaded")):
                    raise Violated("a new rule reports loaded")
                return
            I.call(r, "load", txt, e)
            if not I.truth(I.get(r, "isLoaded")):
                raise Violated("the rule is not loaded")
            if how == "reload own text":
                I.call(r, "unload")
                I.call(r, "load", e)
                if not I.truth(I.get(r, "isLoaded")):
                    raise Violated("a rule loaded again from its own text is not loaded")
                return
            I.call(r if how == "unload" else I.get(r, "getAntecedent" if how[0] == "a" else "getConsequent"), "unload")
            if I.truth(I.get(r, "isLoaded")):
                raise Violated("an unloaded rule reports loaded")
            expect_throw(I, lambda: I.call(r, "activateWith", None, None), "activating an unloaded rule")
            expect_throw(I, lambda: I.call(r, "trigger", None), "triggering an unloaded rule")
        chk.obl("loading", "Rule::isLoaded", how, sc, where=chk.loc("Rule", "isLoaded"))
    # rule blocks
    for texts, nbad in ((["if i0 is low then o0 is big", "if i1 is mid then o1 is small with 0.5"], 0), (["if i0 is low then o0 is big", "if zzz", "if i1 is mid then o1 is small"], 1), (["x", "y"], 2), ([], 0)):
        def sc(I):
            e = world(I, W)
            rb = I.make("RuleBlock", "rb")
            rs = []
            for t in texts:
                r = I.make("Rule")
                I.call(r, "setText", t)
                I.call(rb, "addRule", r)
                rs.append(r)
            f = lambda: I.call(rb, "loadRules", e)
            expect_throw(I, f, "loading a block with a malformed rule") if nbad else f()
            for r, t in zip(rs, texts):
                if I.truth(I.get(r, "isLoaded")) != ("then" in t):
                    raise Violated("after loading the block, `%s` is %sloaded" % (t, "" if I.truth(I.get(r, "isLoaded")) else "not "))
            I.call(rb, "unloadRules")
            for r, t in zip(rs, texts):
                if I.truth(I.get(r, "isLoaded")):
                    raise Violated("after unloading the block, `%s` is loaded" % t)
            f = lambda: I.call(rb, "reloadRules", e)
            expect_throw(I, f, "reloading a block with a malformed rule") if nbad else f()
            for r, t in zip(rs, texts):
                if I.truth(I.get(r, "isLoaded")) != ("then" in t):
                    raise Violated("after reloading the block, `%s` is %sloaded" % (t, "" if I.truth(I.get(r, "isLoaded")) else "not "))
        chk.obl("loading", "RuleBlock::loadRules", str(texts), sc, where=chk.loc("RuleBlock", "loadRules"))
    return ("Abstract interpretation of Rule, Antecedent and Consequent loading: rules rendered from expression trees (all shapes of up to four propositions, random deeper ones) must load into "
            "that tree with the engine's own variable and term objects; malformed and token-mutated texts must raise, leave the rule not loaded, and meet no undefined behaviour.")
