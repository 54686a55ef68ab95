"""C01-C08: the inference pass, from the engine down to aggregated outputs."""
import itertools, random, zlib
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool
from .fuzzy import World, terms_of, expect, expect_throw, multiset, algebra, mu, hedged, opaque, FLN


def leaf(name, lo, hi=None):
    return N.leaf(name, lo, lo + 1e-6 if hi is None else hi)


# ---------------------------------------------------------------------------------------------- C01
def c01(chk):
    chk.rule("pass", "for every choice of enabled flags: outputs are emptied first, then each enabled block is activated exactly once in order, then every enabled output is defuzzified once, seeing only this pass's conclusions")
    chk.rule("restart", "restart makes every input NaN and every output empty with NaN value and previous value")
    I, W = chk.I, World(chk)
    where = chk.loc("Engine", "process")
    shapes = [(0, 1, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (1, 1, 3), (1, 3, 1), (0, 0, 2), (1, 2, 0)]
    if chk.thorough:
        shapes += [(3, 3, 2), (2, 2, 3), (1, 1, 5), (0, 5, 1)]

    def build(I, ni, no, nb, tag):
        e = I.make("Engine", "engine")
        outs, blocks, ins = [], [], []
        for i in range(ni):
            v = W.input("in%d" % i, [W.term("a%d" % i)], leaf("x%d" % i, 1.0 + i))
            I.call(e, "addInputVariable", v)
            ins.append(v)
        for i in range(no):
            o = W.output("out%d" % i, [W.term("t%d" % i)], W.snorm("agg"), None)
            I.call(e, "addOutputVariable", o)
            outs.append(o)

        def defuzz(i):
            def f(I, t, a):
                I.events.append(("terms", i, terms_of(I, a[0]) if isinstance(a[0], Obj) else None))
                return leaf("y%d.%d" % (i, len(I.events)), 5.0 + i)
            return f
        for i, o in enumerate(outs):
            I.call(o, "setDefuzzifier", W.defuzzifier(defuzz(i)))
        for b in range(nb):
            def act(I, t, block, b=b):
                I.events.append(("block", b, [I.get(I.get(o, "fuzzyOutput"), "numberOfTerms") for o in outs]))
                for i, o in enumerate(outs):
                    I.call(I.get(o, "fuzzyOutput"), "addTerm", I.get(o, "getTerm", 0), leaf("d%d.%d.%d" % (b, i, len(I.events)), 0.3), None)
            rb = I.make("RuleBlock", "b%d" % b)
            I.call(rb, "setActivation", W.activation(act))
            I.call(e, "addRuleBlock", rb)
            blocks.append(rb)
        return e, ins, outs, blocks
    for ni, no, nb in shapes:
        def sc(I, passes=2):
            e, ins, outs, blocks = build(I, ni, no, nb, "p")
            for o in outs:      # conclusions left by earlier use
                for k in range(2):
                    I.call(I.get(o, "fuzzyOutput"), "addTerm", I.get(o, "getTerm", 0), leaf("stale%d" % k, 0.7), None)
            for p in range(passes):
                for b, rb in enumerate(blocks):
                    I.call(rb, "setEnabled", UBool("block %d enabled in pass %d" % (b, p)) if p == 0 or b == 0 else True)
                for i, o in enumerate(outs):
                    I.call(o, "setEnabled", UBool("output %d enabled in pass %d" % (i, p)) if p == 0 or i == 0 else True)
                I.events = []
                I.call(e, "process")
                on = [b for b, rb in enumerate(blocks) if I.truth(I.get(rb, "isEnabled"))]
                oo = [i for i, o in enumerate(outs) if I.truth(I.get(o, "isEnabled"))]
                got = [ev[1] for ev in I.events if ev[0] == "block"]
                if got != on:
                    raise Violated("pass %d: blocks activated %s, enabled blocks are %s" % (p, got, on))
                df = [ev[1] for ev in I.events if ev[0] == "terms"]
                if sorted(df) != oo:
                    raise Violated("pass %d: outputs defuzzified %s, enabled outputs are %s" % (p, df, oo))
                kinds = [ev[0] for ev in I.events if ev[0] in ("block", "terms")]
                if kinds != sorted(kinds):
                    raise Violated("pass %d: an output is defuzzified before the last block was activated" % p)
                k = 0
                for ev in I.events:
                    if ev[0] == "block":
                        if any(n != k for n in ev[2]):
                            raise Violated("pass %d: when block %d is activated the outputs hold %s conclusions, this pass added %d" % (p, ev[1], ev[2], k))
                        k += 1
                    elif ev[0] == "terms" and ev[2] is not None and len(ev[2]) != k:
                        raise Violated("pass %d: output %d is defuzzified with %d conclusions, this pass added %d" % (p, ev[1], len(ev[2]), k))
                for i, o in enumerate(outs):
                    n = I.get(I.get(o, "fuzzyOutput"), "numberOfTerms")
                    if n != k:
                        raise Violated("pass %d: output %d holds %d conclusions afterwards, this pass added %d" % (p, i, n, k))
        chk.obl("pass", "Engine::process", "%d inputs, %d outputs, %d blocks" % (ni, no, nb), sc, limit=4096, where=where)
        if ni + no + nb <= 5:
            def dbg(I, sc=sc):
                I.scall(FLN + "fuzzylite::setDebugging", True)
                sc(I)
            chk.obl("pass", "Engine::process", "%d inputs, %d outputs, %d blocks, debugging" % (ni, no, nb), dbg, limit=4096, where=where)

        def rs(I):
            e, ins, outs, blocks = build(I, ni, no, nb, "r")
            for v in ins + outs:
                if UBool:
                    I.call(v, "setEnabled", UBool("%s enabled" % I.get(v, "getName")))
                    I.call(v, "setLockValueInRange", UBool("%s locked in range" % I.get(v, "getName")))
            for v in outs:
                I.call(v, "setLockPreviousValue", UBool("%s lock previous" % I.get(v, "getName")))
                I.call(v, "setDefaultValue", leaf("default", 0.4))
            for p in range(2):
                I.call(e, "process")
            I.call(e, "restart")
            for v in ins:
                expect(I.get(v, "getValue"), N.NAN, "input value after restart")
            for v in outs:
                expect(I.get(v, "getValue"), N.NAN, "output value after restart")
                expect(I.get(v, "getPreviousValue"), N.NAN, "previous output value after restart")
                if I.get(I.get(v, "fuzzyOutput"), "numberOfTerms") != 0:
                    raise Violated("output %s still holds conclusions after restart" % I.get(v, "getName"))
        if no + ni <= 3:
            chk.obl("restart", "Engine::restart", "%d inputs, %d outputs, %d blocks" % (ni, no, nb), rs, limit=4096, where=chk.loc("Engine", "restart"))
    return ("Abstract interpretation of Engine::process and Engine::restart with opaque terms, defuzzifiers and activation methods and unknown enabled and lock flags "
            "(the trace is partitioned on every flag), over two consecutive passes with stale conclusions; the recorded effects must be the documented order.")


# ---------------------------------------------------------------------------------------------- shared small systems
def small(I, W, rules, inputs=1, outputs=1, mus=None, tn="conj", sn="disj", imp="impl", nterms=1):
    """Engine with inputs i0.., outputs o0.., terms a/b/c per variable, one block with the given rules loaded."""
    e = I.make("Engine", "e")
    ins, outs = [], []
    nm = "abcdefgh"
    for i in range(inputs):
        v = W.input("i%d" % i, [W.term(nm[k], (mus or {}).get((i, k), "i%d.%s" % (i, nm[k]))) for k in range(max(nterms, 1 + max([k for (j, k) in (mus or {}) if j == i], default=0)))],
                    leaf("x%d" % i, 10.0 + i))
        I.call(e, "addInputVariable", v)
        ins.append(v)
    for i in range(outputs):
        v = W.output("o%d" % i, [W.term(nm[k], "o%d.%s" % (i, nm[k])) for k in range(3)], W.snorm("agg"))
        I.call(e, "addOutputVariable", v)
        outs.append(v)
    rb = I.make("RuleBlock", "rb")
    for f, n, mkf in (("setConjunction", tn, W.tnorm), ("setDisjunction", sn, W.snorm), ("setImplication", imp, W.tnorm)):
        if n:
            I.call(rb, f, mkf(n))
    rs = []
    for r in rules:
        o = I.make("Rule")
        if r[0] == "!":
            I.call(o, "setText", r[1:])
        else:
            I.call(o, "load", r, e)
        I.call(rb, "addRule", o)
        rs.append(o)
    I.call(e, "addRuleBlock", rb)
    return e, ins, outs, rb, rs


def c02(chk):
    chk.debugging(4)
    chk.rule("degree", "the activation degree is the weight times the antecedent's truth")
    chk.rule("trigger", "conclusions are added, and the rule marked triggered, iff it is enabled and its degree is greater than zero")
    chk.rule("deactivate", "deactivating resets degree and mark whatever the state before")
    chk.rule("unloaded", "an unloaded rule raises a fuzzylite exception and contributes nothing")
    I, W = chk.I, World(chk)
    wh = chk.loc("Rule", "activateWith")
    weights = [("1", N.const(1.0)), ("w in [0.3,0.300001]", leaf("w", 0.3)), ("0", N.const(0.0)), ("w in [2.5,2.500001]", leaf("w", 2.5)), ("nan", N.NAN), ("w<0", leaf("w", -0.5))]
    degs = [("mu", None), ("0", N.const(0.0)), ("1", N.const(1.0)), ("nan", N.NAN), ("any in [0,1]", leaf("m", 0.0, 1.0))]
    for wn, w in weights:
        for dn, d in degs:
            def sc(I):
                e, ins, outs, rb, rs = small(I, W, ["if i0 is a then o0 is b"], mus={(0, 0): {"value": d} if d is not None else "i0.a"})
                I.call(rs[0], "setWeight", w)
                I.call(rs[0], "setActivationDegree", leaf("old", 0.77))
                t = d if d is not None else mu("i0.a", leaf("x0", 10.0))
                want = N.mul(w, t)
                r1 = I.get(rs[0], "activateWith", I.get(rb, "getConjunction"), I.get(rb, "getDisjunction"))
                a = expect(I.get(rs[0], "getActivationDegree"), want, "stored activation degree")
                b = expect(r1, want, "returned activation degree")
                return None if a and b else False
            chk.obl("degree", "Rule::activateWith", "weight %s, antecedent %s" % (wn, dn), sc, where=wh)
    wt = chk.loc("Rule", "trigger")
    tds = [("0", N.const(0.0), False), ("[0.2,0.3]", leaf("d", 0.2, 0.3), True), ("1", N.const(1.0), True), ("[0.001,0.002]", leaf("d", 0.001, 0.002), True), ("nan", N.NAN, False),
           ("[-0.5,-0.4]", leaf("d", -0.5, -0.4), False), ("[1.5,3]", leaf("d", 1.5, 3.0), True), ("inf", N.const(INF), True)]
    for dn, d, pos in tds:
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, ["if i0 is a then o0 is b and o1 is c"], outputs=2)
            r = rs[0]
            I.call(r, "deactivate")
            I.call(r, "setEnabled", UBool("rule enabled"))
            I.call(r, "setActivationDegree", d)
            imp = I.get(rb, "getImplication")
            I.call(r, "trigger", imp)
            en = I.truth(I.get(r, "isEnabled"))
            t = I.truth(I.get(r, "isTriggered"))
            if t != (en and pos):
                raise Violated("isTriggered() is %s for an %s rule with degree %s" % (t, "enabled" if en else "disabled", dn))
            for o, k in zip(outs, (1, 2)):
                got = terms_of(I, I.get(o, "fuzzyOutput"))
                want = [(I.get(o, "getTerm", k), d, imp)] if en and pos else []
                multiset(I, got, want, "conclusions in %s" % I.get(o, "getName"))
            expect(I.get(r, "getActivationDegree"), d, "degree after triggering")
        chk.obl("trigger", "Rule::trigger", "degree %s" % dn, sc, where=wt)
    for dn, d, pos in tds:
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, ["if i0 is a then o0 is b"])
            r = rs[0]
            I.call(r, "setEnabled", UBool("rule enabled"))
            I.call(r, "setActivationDegree", d)
            I.call(r, "setTriggered", UBool("rule triggered before"))
            I.call(r, "deactivate")
            expect(I.get(r, "getActivationDegree"), N.const(0.0), "degree after deactivating")
            if I.truth(I.get(r, "isTriggered")):
                raise Violated("still marked triggered after deactivating")
        chk.obl("deactivate", "Rule::deactivate", "degree %s" % dn, sc, where=chk.loc("Rule", "deactivate"))

    def un(I, how):
        e, ins, outs, rb, rs = small(I, W, ["if i0 is a then o0 is b"])
        r = rs[0]
        if how == "never":
            r = I.make("Rule")
            I.call(r, "setText", "if i0 is a then o0 is b")
        elif how == "unloaded":
            I.call(r, "unload")
        elif how == "no antecedent":
            I.call(r, "setAntecedent", None)
        elif how == "no consequent":
            I.call(r, "setConsequent", None)
        elif how == "antecedent unloaded":
            I.call(I.get(r, "getAntecedent"), "unload")
        elif how == "consequent unloaded":
            I.call(I.get(r, "getConsequent"), "unload")
        elif how == "failed load":
            expect_throw(I, lambda: I.call(r, "load", "if i0 is nothing then o0 is b", e), "loading a rule with an unknown term")
        elif how == "failed consequent":
            expect_throw(I, lambda: I.call(r, "load", "if i0 is a then o0 is nothing", e), "loading a rule with an unknown term")
        if I.truth(I.get(r, "isLoaded")):
            raise Violated("isLoaded() is true (%s)" % how)
        I.call(r, "setEnabled", UBool("rule enabled"))
        expect_throw(I, lambda: I.call(r, "activateWith", I.get(rb, "getConjunction"), I.get(rb, "getDisjunction")), "activating a rule that is not loaded (%s)" % how)
        I.call(r, "setActivationDegree", leaf("d", 0.5))
        expect_throw(I, lambda: I.call(r, "trigger", I.get(rb, "getImplication")), "triggering a rule that is not loaded (%s)" % how)
        if terms_of(I, I.get(outs[0], "fuzzyOutput")):
            raise Violated("an unloaded rule added a conclusion (%s)" % how)
    for how in ("never", "unloaded", "no antecedent", "no consequent", "antecedent unloaded", "consequent unloaded", "failed load", "failed consequent"):
        chk.obl("unloaded", "Rule::activateWith", how, lambda I: un(I, how), where=wh)
    return ("Abstract interpretation of Rule::activateWith, trigger and deactivate with opaque terms and norms, abstract weights and degrees (zero, positive, negative, NaN, infinite, "
            "unknown), unknown flags and every way of not being loaded.")


# ---------------------------------------------------------------------------------------------- C03
HEDGES = ("very", "somewhat", "not", "extremely", "seldom")


# memberships and degrees that differ by less than any tolerance, or are very small
NEAR = ((0.5, 0.5000004), (0.5000004, 0.5), (0.5, 0.5000004, 0.5000002), (0.5000004, 0.5, 0.5000004), (0.5, 0.5 + 1e-12), (1e-7, 2e-7), (2e-7, 1e-7, 0.0), (5e-7,), (1e-300,), (1.0, 1.0 - 1e-12),
        (0.0, 1e-12))


def trees(n, ops=("and", "or")):
    """All binary trees with n leaves and all operator labels."""
    if n == 1:
        yield "leaf"
        return
    for k in range(1, n):
        for l in trees(k, ops):
            for r in trees(n - k, ops):
                for o in ops:
                    yield (o, l, r)


def render(t, props, it, top=True):
    if t == "leaf":
        return props[next(it)]
    o, l, r = t
    s = "%s %s %s" % (render(l, props, it, False), o, render(r, props, it, False))
    return s if top else "( " + s + " )"


def fold(t, vals, it):
    if t == "leaf":
        return vals[next(it)]
    o, l, r = t
    a, b = fold(l, vals, it), fold(r, vals, it)
    return algebra("T", "conj")(a, b) if o == "and" else algebra("S", "disj")(a, b)


def c03(chk):
    chk.debugging(9)
    chk.rule("tree", "the truth of any tree of connectives is conjunction/disjunction of its parts")
    chk.rule("hedges", "hedges apply from the one nearest the term outwards")
    chk.rule("any", "`any` needs no term and yields its hedged constant")
    chk.rule("disabled", "a disabled variable makes its proposition 0, an enabled one its membership")
    chk.rule("output variable", "a proposition about an output variable is the aggregated activation of the term")
    chk.rule("missing", "an unloaded antecedent or a missing operator raises a fuzzylite exception")
    I, W = chk.I, World(chk)
    W.opaque_hedges()
    wh = chk.loc("Antecedent", "activationDegree", 3)
    con = "Antecedent::activationDegree"
    rng = random.Random(chk.seed)

    def run(I, e, rb, text):
        a = I.make("Antecedent")
        I.call(a, "load", text, e)
        return a, I.get(a, "activationDegree", I.get(rb, "getConjunction"), I.get(rb, "getDisjunction"))
    ts = [t for n in (1, 2, 3, 4) for t in trees(n)]
    if chk.thorough:
        five = list(trees(5))
        ts += five
    for t in ts:
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [], inputs=5)
            props = ["i%d is a" % i for i in range(5)]
            vals = [mu("i%d.a" % i, leaf("x%d" % i, 10.0 + i)) for i in range(5)]
            text = render(t, props, iter(range(9)))
            a, got = run(I, e, rb, text)
            r = expect(got, fold(t, vals, iter(range(9))), "truth of `%s`" % text)
            return None if r else False
        chk.obl("tree", con, str(t), sc, where=wh)
    chains = [c for n in range(0, 4) for c in itertools.product(HEDGES, repeat=n)]
    rng.shuffle(chains)
    chains.sort(key=len)
    for c in chains[:len(chains) if chk.thorough else 60]:
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [])
            v = mu("i0.a", leaf("x0", 10.0))
            for h in reversed(c):
                v = hedged(h, v)
            a, got = run(I, e, rb, "i0 is %s a" % " ".join(c))
            r = expect(got, v, "truth of `i0 is %s a`" % " ".join(c))
            return None if r else False
        chk.obl("hedges", con, " ".join(c) or "none", sc, where=wh)
    for text, pre in (("i0 is any", ()), ("i0 is very any", ("very",)), ("i0 is not any", ("not",)), ("i0 is very not any", ("very", "not")), ("( i0 is any )", ())):
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [])
            a, got = run(I, e, rb, text)
            v = N.const(1.0)
            for h in reversed(pre):
                v = hedged(h, v)
            r = expect(got, v, "truth of `%s`" % text)
            return None if r else False
        chk.obl("any", con, text, sc, where=wh)

    def sc(I):
        e, ins, outs, rb, rs = small(I, W, [], inputs=3)
        for k, v in enumerate(ins):
            I.call(v, "setEnabled", UBool("i%d enabled" % k))
        a, got = run(I, e, rb, "i0 is a and i1 is very a or i2 is not any")
        en = [I.truth(I.get(v, "isEnabled")) for v in ins]
        z = N.const(0.0)
        p = [mu("i0.a", leaf("x0", 10.0)), hedged("very", mu("i1.a", leaf("x1", 11.0))), hedged("not", N.const(1.0))]
        p = [x if on else z for x, on in zip(p, en)]
        r = expect(got, algebra("S", "disj")(algebra("T", "conj")(p[0], p[1]), p[2]), "truth with enabled flags %s" % en)
        return None if r else False
    chk.obl("disabled", con, "three propositions, unknown flags", sc, where=wh)
    for k in range(0, 4):
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [], outputs=2)
            o = outs[0]
            I.call(o, "setEnabled", UBool("o0 enabled"))
            f = I.get(o, "fuzzyOutput")
            imp = W.tnorm("impl")
            ds = []
            for j in range(k):
                d = leaf("od%d" % j, 0.1 + 0.2 * j)
                I.call(f, "addTerm", I.get(o, "getTerm", 1), d, imp)
                ds.append(d)
                I.call(f, "addTerm", I.get(o, "getTerm", j % 2 * 2), leaf("other%d" % j, 0.55), imp)
            a, got = run(I, e, rb, "o0 is not b")
            en = I.truth(I.get(o, "isEnabled"))
            want = hedged("not", algebra("S", "agg")(N.const(0.0), *ds)) if en else N.const(0.0)
            r = expect(got, want, "truth of an output proposition with %d activations" % k)
            return None if r else False
        chk.obl("output variable", con, "%d activations" % k, sc, where=wh)
    for c in chains[:len(chains) if chk.thorough else 40]:
        def sc(I, c=c):
            e, ins, outs, rb, rs = small(I, W, [], outputs=1)
            o = outs[0]
            f = I.get(o, "fuzzyOutput")
            ds = [leaf("od0", 0.1), leaf("od1", 0.3)]
            for d in ds:
                I.call(f, "addTerm", I.get(o, "getTerm", 1), d, W.tnorm("impl"))
            a, got = run(I, e, rb, "o0 is %s b" % " ".join(c))
            v = algebra("S", "agg")(N.const(0.0), *ds)
            for h in reversed(c):
                v = hedged(h, v)
            r = expect(got, v, "truth of `o0 is %s b`" % " ".join(c))
            return None if r else False
        chk.obl("output variable", con, "hedges " + (" ".join(c) or "none"), sc, where=wh)
    for text, miss in (("i0 is a and i1 is a", "conj"), ("i0 is a or i1 is a", "disj"), ("i0 is a and i1 is a or i2 is a", "conj"), ("i0 is a or i1 is a and i2 is a", "disj"),
                       ("i0 is a and i1 is a or i2 is a", "disj")):
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [], inputs=3, tn=None if miss == "conj" else "conj", sn=None if miss == "disj" else "disj")
            expect_throw(I, lambda: run(I, e, rb, text), "`%s` without %s" % (text, miss))
        chk.obl("missing", con, "%s without %s" % (text, miss), sc, where=wh)

    def sc(I):
        e, ins, outs, rb, rs = small(I, W, [], tn=None, sn=None)
        a, got = run(I, e, rb, "i0 is very a")
        expect(got, hedged("very", mu("i0.a", leaf("x0", 10.0))), "single proposition without operators")
    chk.obl("missing", con, "no operator needed", sc, where=wh)
    # ---- particular truths: zero, one and undefined sides are combined like any other
    SPECIAL = (("0", N.const(0.0)), ("1", N.const(1.0)), ("nan", N.NAN), ("0.4", N.const(0.4)))
    pairs = [("Minimum", "Maximum"), ("AlgebraicProduct", "AlgebraicSum")] + ([("EinsteinProduct", "UnboundedSum"), ("BoundedDifference", "BoundedSum")] if chk.thorough else [])
    for t in [t for n in (2, 3) for t in trees(n)]:
        n = str(t).count("leaf")
        for tn, sn in pairs:
            for vs in itertools.product(SPECIAL, repeat=n):
                if n == 3 and not chk.thorough and zlib.crc32(repr((t, tn, [v[0] for v in vs])).encode()) % 3:
                    continue

                def sc(I, t=t, n=n, tn=tn, sn=sn, vs=vs):
                    e, ins, outs, rb, rs = small(I, W, [], inputs=n, mus={(k, 0): {"value": v[1]} for k, v in enumerate(vs)})
                    c, d = I.make(tn), I.make(sn)
                    I.call(rb, "setConjunction", c)
                    I.call(rb, "setDisjunction", d)

                    def fold_(t, it):
                        if t == "leaf":
                            return vs[next(it)][1]
                        o, l, r = t
                        a, b = fold_(l, it), fold_(r, it)
                        return I.get(c if o == "and" else d, "compute", a, b)
                    text = render(t, ["i%d is a" % i for i in range(5)], iter(range(9)))
                    a, got = run(I, e, rb, text)
                    expect(got, fold_(t, iter(range(9))), "truth of `%s` of truths %s" % (text, ", ".join(v[0] for v in vs)))
                chk.obl("tree", con, "%s of %s with %s and %s" % (t, ", ".join(v[0] for v in vs), tn, sn), sc, where=wh)
    for text, miss in (("i0 is a and (i1 is a or i2 is a)", "disj"), ("(i1 is a or i2 is a) and i0 is a", "disj"), ("i0 is a or i1 is a and i2 is a", "conj"), ("i1 is a and i2 is a or i0 is a", "conj"),
                       ("i0 is a and i1 is a", "conj"), ("i0 is a or i1 is a", "disj"), ("i0 is a and i0 is a", "conj"), ("i0 is a or i0 is a", "disj")):
        for vn, v in SPECIAL:
            for off in (False, True):
                def sc(I, text=text, miss=miss, v=v, off=off):
                    e, ins, outs, rb, rs = small(I, W, [], inputs=3, tn=None if miss == "conj" else "conj", sn=None if miss == "disj" else "disj", mus={(0, 0): {"value": v}})
                    if off:
                        I.call(ins[0], "setEnabled", False)
                    expect_throw(I, lambda: run(I, e, rb, text), "`%s` without %s" % (text, miss))
                chk.obl("missing", con, "%s without %s where i0 is %s%s" % (text, miss, vn, ", disabled" if off else ""), sc, where=wh)
    for chain in ((), ("not",), ("very",), ("not", "very"), ("very", "not"), ("somewhat", "seldom")):
        for vn, v in SPECIAL:
            def sc(I, chain=chain, v=v):
                e, ins, outs, rb, rs = small(I, W, [], mus={(0, 0): {"value": v}})
                w = v
                for h in reversed(chain):
                    w = hedged(h, w)
                a, got = run(I, e, rb, "i0 is %s a" % " ".join(chain))
                expect(got, w, "truth of `i0 is %s a`" % " ".join(chain))
            chk.obl("hedges", con, "%s of %s" % (" ".join(chain) or "none", vn), sc, where=wh)
    for how in ("never", "unloaded"):
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [])
            a = I.make("Antecedent")
            if how == "unloaded":
                I.call(a, "load", "i0 is a", e)
                I.call(a, "unload")
            expect_throw(I, lambda: I.call(a, "activationDegree", I.get(rb, "getConjunction"), I.get(rb, "getDisjunction")), "unloaded antecedent")
        chk.obl("missing", con, how, sc, where=wh)
    W.opaque_hedges(False)
    return ("Abstract interpretation of Antecedent::load and activationDegree with opaque terms, hedges and norms (free commutative monoids): the value number of the "
            "result must be that of the specified combination, for every tree shape up to the bound, every hedge chain up to length 3, unknown enabled flags, output "
            "variables with 0-3 activations and every missing operator.")


# ---------------------------------------------------------------------------------------------- C04
def c04(chk):
    chk.debugging(9)
    chk.rule("conclusions", "one activated term per conclusion about an enabled output, with the rule's degree modified by exactly that conclusion's hedges, and the given implication")
    chk.rule("unloaded", "an unloaded consequent raises a fuzzylite exception")
    I, W = chk.I, World(chk)
    W.opaque_hedges()
    wh = chk.loc("Consequent", "modify")
    rng = random.Random(chk.seed)
    DEGREES = {"": leaf("degree", 0.4), "above one": leaf("degree", 1.7), "far above one": leaf("degree", 40.0), "zero": N.const(0.0), "one": N.const(1.0),
               "tiny": leaf("degree", 1e-9, 2e-9), "infinite": N.const(INF)}
    cases = []
    chains = [()] + [(h,) for h in HEDGES] + [p for p in itertools.product(HEDGES[:3], repeat=2)] + [("very", "not", "somewhat")]
    for c in chains:
        cases.append([(0, 1, c)])
    for c, d in itertools.product([(), ("very",), ("not",), ("very", "not")], repeat=2):
        cases.append([(0, 0, c), (1, 1, d)])
        cases.append([(0, 0, c), (0, 2, d)])
    for _ in range(200 if chk.thorough else 25):
        cases.append([(rng.randrange(3), rng.randrange(3), rng.choice(chains)) for _ in range(rng.choice((2, 3, 3, 4)))])
    chk.rule("isolation", "the hedges of one conclusion do not modify the degree of another conclusion of the same rule")
    # the conclusions take the degree as it is, whatever its size: rules may weigh more than one
    odd = [([(0, 1, c)], False, k) for k in sorted(DEGREES) if k for c in ((), ("very",), ("not",))] + [([(0, 0, ()), (1, 1, ())], False, k) for k in sorted(DEGREES) if k]
    for case, isolation, size in [(c, False, "") for c in cases] + [([(0, 0, ("very",)), (1, 1, ())], True, "")] + odd:
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [], outputs=3)
            text = " and ".join("o%d is %s%s" % (o, "".join(h + " " for h in hs), "abc"[t]) for o, t, hs in case)
            c = I.make("Consequent")
            I.call(c, "load", text, e)
            used = sorted({o for o, t, h in case})
            for k in used:
                I.call(outs[k], "setEnabled", UBool("o%d enabled" % k))
            d = DEGREES[size]
            imp = I.get(rb, "getImplication")
            stale = {}
            for k in used[:1]:
                I.call(I.get(outs[k], "fuzzyOutput"), "addTerm", I.get(outs[k], "getTerm", 0), leaf("stale", 0.9), None)
                stale[k] = [(I.get(outs[k], "getTerm", 0), leaf("stale", 0.9), None)]
            I.call(c, "modify", d, imp)
            on = [I.truth(I.get(o, "isEnabled")) for o in outs]

            def judge(leak):
                r, v = True, d
                want = {k: list(stale.get(k, [])) for k in range(len(outs))}
                for oo, t, hs in case:
                    if on[oo]:
                        if not leak:
                            v = d
                        for h in reversed(hs):
                            v = hedged(h, v)
                        want[oo].append((I.get(outs[oo], "getTerm", t), v, imp))
                for k, o in enumerate(outs):
                    if multiset(I, terms_of(I, I.get(o, "fuzzyOutput")), want[k], "`%s`: conclusions in o%d" % (text, k)) is False:
                        r = False
                return r
            try:
                return None if judge(False) else False
            except Violated as e:
                # the recorded finding (hedges carried over to the following conclusions) is judged by the rule
                # `isolation`; anything else is a violation here
                if isolation:
                    raise
                try:
                    return None if judge(True) else False
                except Violated:
                    raise e
        chk.obl("isolation" if isolation else "conclusions", "Consequent::modify", "hedges of an earlier conclusion" if isolation else str(case) + (", degree " + size if size else ""), sc, where=wh)
    chk.rule("triggered", "triggering a loaded, enabled rule of positive degree adds its conclusions with the rule's own degree, weights above one included")
    for size in sorted(DEGREES):
        for text, ts in (("o0 is b", [(0, 1)]), ("o0 is b and o1 is c", [(0, 1), (1, 2)])):
            for route in ("degree", "weight"):
                if route == "weight" and size in ("zero", "infinite"):
                    continue

                def sc(I):
                    e, ins, outs, rb, rs = small(I, W, ["if i0 is a then " + text], outputs=2, mus={(0, 0): {"value": N.const(1.0)}})
                    r, d = rs[0], DEGREES[size]
                    imp = I.get(rb, "getImplication")
                    if route == "weight":
                        I.call(r, "setWeight", d)
                        I.call(r, "activateWith", I.get(rb, "getConjunction"), I.get(rb, "getDisjunction"))
                    else:
                        I.call(r, "setActivationDegree", d)
                    I.call(r, "trigger", imp)
                    for k, o in enumerate(outs):
                        want = [(I.get(o, "getTerm", t), d, imp) for oo, t in ts if oo == k] if size not in ("zero", "tiny") else []
                        multiset(I, terms_of(I, I.get(o, "fuzzyOutput")), want, "`%s` with degree %s by its %s: conclusions in o%d" % (text, size, route, k))
                chk.obl("triggered", "Rule::trigger", "%s, degree %s by %s" % (text, size or "usual", route), sc, where=chk.loc("Rule", "trigger"))
    for how in ("never", "unloaded"):
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [])
            c = I.make("Consequent")
            if how == "unloaded":
                I.call(c, "load", "o0 is a", e)
                I.call(c, "unload")
            expect_throw(I, lambda: I.call(c, "modify", leaf("d", 0.5), I.get(rb, "getImplication")), "unloaded consequent")
            if terms_of(I, I.get(outs[0], "fuzzyOutput")):
                raise Violated("an unloaded consequent added a conclusion")
        chk.obl("unloaded", "Consequent::modify", how, sc, where=wh)
    W.opaque_hedges(False)
    return ("Abstract interpretation of Consequent::load and modify with opaque hedges, an opaque degree and unknown enabled flags: the multiset of activated terms of every output "
            "(term identity, value number of the degree, implication identity) must be the specified one.")


# ---------------------------------------------------------------------------------------------- C05
DEG = {"h": ("high", 0.8, 0.85), "m": ("mid", 0.53, 0.55), "l": ("low", 0.2, 0.25), "t": ("tiny", 0.01, 0.011)}


CLOSE = {"a": 4e-8, "b": -4e-8, "A": 1e-4, "B": -1e-4}


def c05(chk):
    chk.debugging(6)
    chk.rule("selection", "exactly the documented rules are triggered, with the documented degrees, and their conclusions use the block's implication")
    chk.rule("state", "rules that are not selected are left deactivated (no mark, no stale degree); unloaded rules are never evaluated")
    chk.rule("operators", "degrees are computed with the block's conjunction and disjunction")
    I, W = chk.I, World(chk)
    rng = random.Random(chk.seed)

    def value(k, c):
        if c == "z":
            return N.const(0.0)
        if c == "n":
            return N.NAN
        if c == "e":
            return N.const(0.5)      # ties
        if c in CLOSE:               # about the threshold of 0.5: within the tolerance of the comparisons, or just beyond it
            return N.const(0.5 + CLOSE[c] * (1 + 0.01 * k))
        nm, a, b = DEG[c]
        return N.leaf("%s%d" % (nm, k), a + 0.001 * k, a + 0.001 * k + 0.0005)

    def eq(d, th):
        return abs(d.lo - th) < 1e-6 and abs(d.hi - th) < 1e-6

    def oracle(method, args, degs):
        """degs: {rule index: Num} of loaded rules; returns list of acceptable selections (sets)."""
        pos = [k for k, d in degs.items() if not d.only_nan() and d.lo > 0]
        if method == "General":
            return [set(pos)]
        if method in ("First", "Last"):
            n, th = args
            order = sorted(pos, reverse=method == "Last")
            return [set([k for k in order if degs[k].lo >= th or eq(degs[k], th)][:max(n, 0)])]
        if method in ("Highest", "Lowest"):
            n = max(args[0], 0)
            s = sorted(pos, key=lambda k: (degs[k].lo if method == "Lowest" else -degs[k].lo, k))
            if n >= len(s):
                return [set(s)]
            if n == 0:
                return [set()]
            cut = degs[s[n - 1]].lo
            sure = [k for k in s[:n] if degs[k].lo != cut]
            tied = [k for k in s if degs[k].lo == cut]
            return [set(sure) | set(c) for c in itertools.combinations(tied, n - len(sure))]
        if method == "Proportional":
            return [set(pos)]
        if method == "Threshold":
            op, th = args
            f = {"<": lambda d: d.hi < th and not eq(d, th), "<=": lambda d: d.hi <= th or eq(d, th), "==": lambda d: eq(d, th), "!=": lambda d: not eq(d, th),
                 ">=": lambda d: d.lo >= th or eq(d, th), ">": lambda d: d.lo > th and not eq(d, th)}[op]
            return [set(k for k in pos if f(degs[k]))]

    def make(I, method, args):
        if method == "Threshold":
            return I.make("Threshold", args[0], N.const(args[1]))
        return I.make(method, *[N.const(a) if isinstance(a, float) else a for a in args])

    def run(method, args, pattern, disabled=None, weights=None):
        m = len(pattern)

        def sc(I):
            rules = [("!" if c == "u" else "") + "if i%d is a then o%d is a" % (k, k) for k, c in enumerate(pattern)]
            mus = {(k, 0): {"value": value(k, c)} for k, c in enumerate(pattern) if c != "u"}
            for k, c in enumerate(pattern):
                if c == "u":
                    def bad(I, x, k=k):
                        raise Violated("rule %d is not loaded but its antecedent is evaluated" % k)
                    mus[(k, 0)] = {"fn": bad}
            e, ins, outs, rb, rs = small(I, W, rules, inputs=m, outputs=m, mus=mus, nterms=1)
            for k, r in enumerate(rs):       # whatever an earlier pass left behind
                I.call(r, "setActivationDegree", leaf("stale%d" % k, 0.66))
                I.call(r, "setTriggered", UBool("rule %d triggered before" % k) if k == 0 else True)
                if disabled is not None and k == disabled:
                    I.call(r, "setEnabled", UBool("rule %d enabled" % k))
            act = make(I, method, args)
            I.call(rb, "setActivation", act)
            I.call(act, "activate", rb)
            degs = {k: value(k, c) for k, c in enumerate(pattern) if c != "u"}
            sel = oracle(method, args, degs)
            off = {k for k, r in enumerate(rs) if not I.truth(I.get(r, "isEnabled"))}
            sel = [s - off for s in sel]
            got = {k for k, r in enumerate(rs) if I.truth(I.get(r, "isTriggered"))}
            if got not in sel:
                raise Violated("%s%s with degrees %s: triggered rules %s, documented %s" % (method, args, pattern, sorted(got), [sorted(s) for s in sel]))
            imp = I.get(rb, "getImplication")
            tot = None
            if method == "Proportional":
                lo = sum(d.lo for d in degs.values() if not d.only_nan())
                hi = sum(d.hi for d in degs.values() if not d.only_nan())
            for k, r in enumerate(rs):
                d = I.get(r, "getActivationDegree")
                if k in degs:
                    w = degs[k]
                    if method == "Proportional":
                        w = Num(w.lo / hi - 1e-9, w.hi / lo + 1e-9) if lo > 0 else N.const(0.0)
                    expect(d, w, "%s%s with degrees %s: activation degree of rule %d" % (method, args, pattern, k))
                else:
                    expect(d, N.const(0.0), "activation degree of the unloaded rule %d" % k)
                want = [(I.get(outs[k], "getTerm", 0), w, imp)] if k in got else []
                multiset(I, terms_of(I, I.get(outs[k], "fuzzyOutput")), want, "%s%s with degrees %s: conclusions of rule %d" % (method, args, pattern, k))
        chk.obl("selection", method + "::activate", "%s %s%s" % (args, pattern, " flag of %d" % disabled if disabled is not None else ""), sc, where=chk.loc(method, "activate", 1))
    pats = ["", "h", "z", "u", "hml", "lmh", "mhl", "zhu", "uzh", "huml", "lzmh", "tml", "umulh"]
    ties = ["ee", "eeh", "lee", "ehel", "eee"]
    nan = ["nh", "hnm"]
    if chk.thorough:
        pats += ["".join(p) for n in (2, 3) for p in itertools.product("hmlzu", repeat=n)]
        pats += ["".join(rng.choice("hmltzu") for _ in range(rng.choice((4, 5, 6)))) for _ in range(40)]
        pats = sorted(set(pats), key=lambda s: (len(s), s))
    for p in pats + ties:
        run("General", (), p)
        run("Proportional", (), p)
        for n in (0, 1, 2, 3) if chk.thorough or len(p) > 1 else (1, 2):
            for th in (0.0, 0.4, 0.9):
                if th == 0.0 or n in (1, 2):
                    run("First", (n, th), p)
                    run("Last", (n, th), p)
            run("Highest", (n,), p)
            run("Lowest", (n,), p)
        for op in ("<", "<=", "==", "!=", ">=", ">"):
            for th in (0.5, 0.0) if p not in ties else (0.5,):
                if "m" in p and th == 0.5 and not chk.thorough and op in ("==", "!="):
                    pass
                run("Threshold", (op, th), p)
    # degrees about the threshold; degrees that differ by less than the tolerance are ranked all the same
    for p in ("a", "b", "A", "B", "aA", "Bb", "abAB", "BAhba"):
        for op in ("<", "<=", "==", "!=", ">=", ">"):
            run("Threshold", (op, 0.5), p)
        for n in (1, 2):
            run("First", (n, 0.5), p)
            run("Last", (n, 0.5), p)
            run("Highest", (n,), p)
            run("Lowest", (n,), p)
    for p in ("ab", "ba", "bab", "aab", "abba", "bbab", "bahz") + (("babab", "ahbab", "abBAa", "bbbba", "abbbb") if chk.thorough else ()):
        for n in (1, 2, 3):
            run("Highest", (n,), p)
            run("Lowest", (n,), p)
    for p in nan:
        run("General", (), p)
        for mth, a in (("First", (2, 0.0)), ("Last", (2, 0.0)), ("Highest", (2,)), ("Lowest", (2,)), ("Threshold", (">=", 0.1))):
            run(mth, a, p)
    for p in ("hml", "ml", "uhz"):
        for k in range(len(p)):
            if p[k] in "hml":
                run("General", (), p, k)
                run("Proportional", (), p, k)
                run("Threshold", (">", 0.1), p, k)
    # operators and default activation
    text = "if i0 is a and i1 is a or i2 is a then o0 is b"
    for method, args in (("General", ()), ("First", (1, 0.0)), ("Last", (1, 0.0)), ("Highest", (1,)), ("Lowest", (1,)), ("Proportional", ()), ("Threshold", (">", 0.0)), (None, ())):
        def sc(I):
            e, ins, outs, rb, rs = small(I, W, [text], inputs=3)
            if method:
                I.call(rb, "setActivation", make(I, method, args))
            else:
                I.call(rb, "setActivation", None)
            I.call(rb, "activate")
            v = [mu("i%d.a" % i, leaf("x%d" % i, 10.0 + i)) for i in range(3)]
            want = algebra("S", "disj")(algebra("T", "conj")(v[0], v[1]), v[2])
            if method == "Proportional":
                want = Num(1 - 1e-6, 1 + 1e-6)
            multiset(I, terms_of(I, I.get(outs[0], "fuzzyOutput")), [(I.get(outs[0], "getTerm", 1), want, I.get(rb, "getImplication"))], "%s: conclusions of `%s`" % (method, text))
        chk.obl("operators", (method or "RuleBlock") + "::activate", text, sc, where=chk.loc(method or "RuleBlock", "activate"))
    return ("Abstract interpretation of every activation method over rule blocks of up to five rules whose truth is an opaque number in disjoint classes (high, mid, low, zero, NaN, "
            "ties, unloaded), stale earlier state and unknown flags: the set of triggered rules, the degrees and the produced conclusions must be a documented selection. "
            "Whether a disabled rule counts towards the n of First, Last, Highest and Lowest is documented nowhere and is not judged.")


# ---------------------------------------------------------------------------------------------- C06
def c06(chk):
    chk.debugging(8)
    chk.rule("cascade", "value after each defuzzification is the defuzzified result, else the locked previous value, else the default, clamped under the range lock; previous is the value held before")
    chk.rule("defuzzifier", "a missing defuzzifier raises on an enabled variable and the state is unchanged; it is given the fuzzy output and the range")
    chk.rule("clear", "clearing empties the fuzzy output and makes value and previous value NaN")
    I, W = chk.I, World(chk)
    wh = chk.loc("OutputVariable", "defuzzify")
    vals = {"in": lambda k: leaf("d%d" % k, 0.3 + 0.1 * k), "high": lambda k: leaf("d%d" % k, 1.5 + 0.1 * k), "low": lambda k: leaf("d%d" % k, -1.5 + 0.1 * k),
            "nan": lambda k: N.NAN, "inf": lambda k: N.const(INF), "-inf": lambda k: N.const(-INF)}
    seqs = list(itertools.product(("in", "high", "nan"), repeat=3)) + [("in", "inf", "nan"), ("inf", "nan", "nan"), ("low", "nan", "in"), ("in", "nan", "-inf"), ("low", "low", "nan")]
    if chk.thorough:
        seqs += list(itertools.product(("in", "high", "low", "nan"), repeat=4))
    defaults = [("value", leaf("default", 0.7)), ("nan", N.NAN), ("out of range", leaf("default", 3.0))]
    for seq in seqs:
        for dn, dv in defaults:
            def sc(I):
                ds = [vals[s](k) for k, s in enumerate(seq)]
                cur = [None]
                lo, hi = N.leaf("min", 0.0, 1e-9), N.leaf("max", 1.0, 1.0 + 1e-9)
                o = I.make("OutputVariable", "o", lo, hi)
                I.call(o, "addTerm", W.term("t"))
                I.call(o, "setDefuzzifier", W.defuzzifier(lambda I, t, a: cur[0]))
                I.call(o, "setDefaultValue", dv)
                I.call(o, "setLockPreviousValue", UBool("lock previous"))
                I.call(o, "setLockValueInRange", UBool("lock range"))
                I.call(I.get(o, "fuzzyOutput"), "addTerm", I.get(o, "getTerm", 0), leaf("a", 0.5), None)
                value, prev = N.NAN, N.NAN
                for k, d in enumerate(ds):
                    cur[0] = d
                    I.call(o, "setEnabled", UBool("enabled in step %d" % k) if k == 1 else True)
                    I.call(o, "defuzzify")
                    if I.truth(I.get(o, "isEnabled")):
                        v = d
                        lp = I.truth(I.get(o, "isLockPreviousValue"))
                        lr = I.truth(I.get(o, "isLockValueInRange"))
                        if v.only_nan() and lp:
                            v = prev
                        if v.only_nan():
                            v = dv
                        if lr and not v.only_nan():
                            v = lo if v.hi < 0 else hi if v.lo > 1.1 else v
                        prev = value
                        value = v
                    expect(I.get(o, "getValue"), value, "value after step %d of %s" % (k, seq))
                    expect(I.get(o, "getPreviousValue"), prev, "previous value after step %d of %s" % (k, seq))
            chk.obl("cascade", "OutputVariable::defuzzify", "results %s, default %s" % (seq, dn), sc, limit=256, where=wh)

    def sc(I):
        o = I.make("OutputVariable", "o", N.leaf("min", 0.0, 1e-9), N.leaf("max", 1.0, 1.0 + 1e-9))
        I.call(o, "setDefuzzifier", W.defuzzifier(lambda I, t, a: leaf("d", 0.5)))
        I.call(o, "defuzzify")
        ev = [e for e in I.events if e[0] == "defuzzify"]
        if len(ev) != 1:
            raise Violated("the defuzzifier is called %d times" % len(ev))
        if ev[0][2] is not I.get(o, "fuzzyOutput"):
            raise Violated("the defuzzifier is not given the variable's fuzzy output")
        expect(ev[0][3], N.leaf("min", 0.0, 1e-9), "minimum given to the defuzzifier")
        expect(ev[0][4], N.leaf("max", 1.0, 1.0 + 1e-9), "maximum given to the defuzzifier")
    chk.obl("defuzzifier", "OutputVariable::defuzzify", "arguments", sc, where=wh)
    for terms in (0, 1):
        def sc(I):
            o = I.make("OutputVariable", "o", 0.0, 1.0)
            I.call(o, "setDefuzzifier", None)
            I.call(o, "addTerm", W.term("t"))
            if terms:
                I.call(I.get(o, "fuzzyOutput"), "addTerm", I.get(o, "getTerm", 0), leaf("a", 0.5), None)
            I.call(o, "setValue", leaf("v", 0.4))
            I.call(o, "setPreviousValue", leaf("p", 0.3))
            I.call(o, "setEnabled", UBool("enabled"))
            if I.truth(I.get(o, "isEnabled")):
                expect_throw(I, lambda: I.call(o, "defuzzify"), "defuzzification without defuzzifier")
            else:
                I.call(o, "defuzzify")
            expect(I.get(o, "getValue"), leaf("v", 0.4), "value")
            expect(I.get(o, "getPreviousValue"), leaf("p", 0.3), "previous value")
        chk.obl("defuzzifier", "OutputVariable::defuzzify", "missing, %d activated terms" % terms, sc, where=wh)
    for terms in (0, 1, 3):
        def sc(I):
            o = I.make("OutputVariable", "o", 0.0, 1.0)
            I.call(o, "addTerm", W.term("t"))
            I.call(o, "setEnabled", UBool("enabled"))
            I.call(o, "setLockPreviousValue", UBool("lock previous"))
            I.call(o, "setLockValueInRange", UBool("lock range"))
            I.call(o, "setDefaultValue", leaf("default", 0.2))
            I.call(o, "setValue", leaf("v", 0.4))
            I.call(o, "setPreviousValue", leaf("p", 0.3))
            for k in range(terms):
                I.call(I.get(o, "fuzzyOutput"), "addTerm", I.get(o, "getTerm", 0), leaf("a%d" % k, 0.5), None)
            I.call(o, "clear")
            expect(I.get(o, "getValue"), N.NAN, "value after clear")
            expect(I.get(o, "getPreviousValue"), N.NAN, "previous value after clear")
            if I.get(I.get(o, "fuzzyOutput"), "numberOfTerms") != 0:
                raise Violated("clear leaves activated terms")
            expect(I.get(o, "getDefaultValue"), leaf("default", 0.2), "default value after clear")
        chk.obl("clear", "OutputVariable::clear", "%d activated terms" % terms, sc, where=chk.loc("OutputVariable", "clear"))
    return ("Abstract interpretation of OutputVariable::defuzzify over histories of three (thorough: four) defuzzifications with an opaque defuzzifier whose results are in range, out of "
            "range, infinite or NaN, and unknown lock and enabled flags; value and previous value must follow the documented cascade.")


# ---------------------------------------------------------------------------------------------- C07
def c07(chk):
    chk.rule("lock", "setValue stores the value, clamped to the range iff the range lock is on")
    chk.rule("activations", "activations lists every term in order with its membership (NaN when the term raises)")
    chk.rule("maximal", "maxActivations are exactly the terms tied at the highest positive membership; highestMembership is one of them, none if there is none")
    chk.rule("fuzzify", "the fuzzy value text lists every term in order with its membership")
    I, W = chk.I, World(chk)
    where = chk.loc("Variable", "setValue")
    kinds = ("Variable", "InputVariable", "OutputVariable")
    rngs = [("[2,4]", N.leaf("min", 2.0, 2.001), N.leaf("max", 4.0, 4.001)), ("[-inf,4]", N.const(-INF), N.leaf("max", 4.0, 4.001)), ("[2,inf]", N.leaf("min", 2.0, 2.001), N.const(INF)),
            ("[-inf,inf]", N.const(-INF), N.const(INF))]
    vs = [("below", leaf("v", -7.0, -6.0)), ("inside", leaf("v", 2.5, 3.5)), ("above", leaf("v", 5.0, 9.0)), ("nan", N.NAN), ("inf", N.const(INF)), ("-inf", N.const(-INF)), ("min", None), ("max", None)]
    for kind in kinds:
        for rn, lo, hi in rngs:
            for vn, v in vs:
                def sc(I):
                    x = I.make(kind, "v", lo, hi)
                    I.call(x, "setLockValueInRange", UBool("lock"))
                    w = v if v is not None else (lo if vn == "min" else hi)
                    I.call(x, "setValue", w)
                    want = w
                    if I.truth(I.get(x, "isLockValueInRange")) and not w.only_nan():
                        if w.lo > hi.hi:
                            want = hi
                        elif w.hi < lo.lo:
                            want = lo
                    expect(I.get(x, "getValue"), want, "value")
                chk.obl("lock", kind + "::setValue", "range %s, value %s" % (rn, vn), sc, where=where)
    for kind in kinds:
        for vn, v, w in (("just above the maximum", N.leaf("v", 4.0 + 1e-7, 4.0 + 9e-7), 4.0), ("just below the minimum", N.leaf("v", 2.0 - 9e-7, 2.0 - 1e-7), 2.0),
                         ("just below the maximum", N.leaf("v", 4.0 - 9e-7, 4.0 - 1e-7), None), ("just above the minimum", N.leaf("v", 2.0 + 1e-7, 2.0 + 9e-7), None)):
            def sc(I, v=v, w=w):
                x = I.make(kind, "v", 2.0, 4.0)
                I.call(x, "setLockValueInRange", UBool("lock"))
                I.call(x, "setValue", v)
                locked = I.truth(I.get(x, "isLockValueInRange"))
                expect(I.get(x, "getValue"), N.const(w) if locked and w is not None else v, "value")
            chk.obl("lock", kind + "::setValue", "range [2,4], value " + vn, sc, where=where)
    pats = ["", "h", "z", "n", "x", "hml", "lmh", "zz", "nn", "znh", "ee", "lee", "eel", "ehe", "hxe", "eze", "ene", "gm", "zx"]
    rng = random.Random(chk.seed)
    if chk.thorough:
        pats += ["".join(rng.choice("hmlezn") for _ in range(rng.randint(2, 7))) for _ in range(60)]

    def val(k, c):
        if c == "z":
            return N.const(0.0)
        if c == "n":
            return N.NAN
        if c == "e":
            return N.const(0.5)
        if c == "g":
            return leaf("neg%d" % k, -0.4)
        nm, a, b = DEG[c]
        return N.leaf("%s%d" % (nm, k), a + 0.002 * k, a + 0.002 * k + 0.0005)
    for kind in kinds:
        for p in pats:
            def build(I):
                x = I.make(kind, "v", 0.0, 1.0)
                I.call(x, "setEnabled", UBool("enabled"))
                ts = []
                for k, c in enumerate(p):
                    t = W.term("t%d" % k, {"throws": True} if c == "x" else {"value": val(k, c)})
                    I.call(x, "addTerm", t)
                    ts.append(t)
                ds = [N.NAN if c == "x" else val(k, c) for k, c in enumerate(p)]
                return x, ts, ds

            def acts(I, v):
                v = I.val(v)
                return [(I.get(a, "getTerm"), I.get(a, "getDegree")) for a in v.x]

            def sc(I):
                x, ts, ds = build(I)
                got = acts(I, I.call(x, "activations", leaf("x", 0.3)))
                if len(got) != len(ts):
                    raise Violated("%d activations for %d terms" % (len(got), len(ts)))
                for (t, d), wt, wd in zip(got, ts, ds):
                    if t is not wt:
                        raise Violated("activations are not in term order")
                    expect(d, wd, "membership reported for %s" % wt.label)
            chk.obl("activations", kind + "::activations", p, sc, where=chk.loc("Variable", "activations"))

            def sc(I):
                x, ts, ds = build(I)
                best = max([d.lo for d in ds if not d.only_nan() and d.lo > 0], default=None)
                want = [(t, d) for t, d in zip(ts, ds) if best is not None and not d.only_nan() and d.lo == best]
                multiset(I, acts(I, I.call(x, "maxActivations", leaf("x", 0.3))), want, "maximal activations of %s" % p)
                from flai.interp import Cell
                y = Cell(leaf("untouched", 9.0))
                t = I.get(x, "highestMembership", leaf("x", 0.3), y)
                if want:
                    if not any(t is w for w, d in want):
                        raise Violated("highest membership of %s is reported for %r" % (p, t))
                    expect(I.num(y.v), want[0][1], "reported highest membership")
                elif t is not None:
                    raise Violated("highest membership of %s is reported for %r, none is positive" % (p, t))
                t2 = I.get(x, "highestMembership", leaf("x", 0.3))
                if t2 is not t and want and not any(t2 is w for w, d in want) or not want and t2 is not None:
                    raise Violated("highest membership without the degree pointer differs")
            chk.obl("maximal", kind + "::maxActivations", p, sc, where=chk.loc("Variable", "maxActivations"))

            def sc(I):
                x, ts, ds = build(I)
                s = I.get(x, "fuzzify", leaf("x", 0.3))
                words = s.replace("+ ", "+").replace("- ", "-").split()
                if len(words) != len(ts):
                    raise Violated("fuzzify lists %d entries for %d terms: %s" % (len(words), len(ts), show(s)))
                for w, t, d in zip(words, ts, ds):
                    num, _, name = w.partition("/")
                    if name != t.label:
                        raise Violated("fuzzify does not list the terms in order: %s" % show(s))
                    got = I.num(I.scall("fuzzylite::Operation::toScalar", num.lstrip("+-")))
                    if num.startswith("-"):
                        got = N.neg(got)
                    expect(got, d, "fuzzified membership of %s" % name)
            chk.obl("fuzzify", kind + "::fuzzify", p, sc, where=chk.loc("Variable", "fuzzify"))
        for p in NEAR:
            def sc(I, p=p, kind=kind):
                x = I.make(kind, "v", 0.0, 1.0)
                ts = [W.term("t%d" % k, {"value": N.const(d)}) for k, d in enumerate(p)]
                for t in ts:
                    I.call(x, "addTerm", t)
                best = max(p)
                want = [(t, N.const(d)) for t, d in zip(ts, p) if d == best]
                got = [(I.get(a, "getTerm"), I.get(a, "getDegree")) for a in I.val(I.call(x, "maxActivations", N.const(0.3))).x]
                multiset(I, got, want, "maximal activations of the memberships %s" % (p,))
                from flai.interp import Cell
                y = Cell(leaf("untouched", 9.0))
                t = I.get(x, "highestMembership", N.const(0.3), y)
                if not any(t is w for w, d in want):
                    raise Violated("the highest of the memberships %s is reported for number %s" % (p, next((k + 1 for k, w in enumerate(ts) if w is t), None)))
                expect(I.num(y.v), N.const(best), "the highest of the memberships %s" % (p,))
            chk.obl("maximal", kind + "::maxActivations", "memberships %s" % (p,), sc, where=chk.loc("Variable", "maxActivations"))
    return ("Abstract interpretation of setValue for every order of value and range with unknown lock flag, and of activations, maxActivations, highestMembership and fuzzify on "
            "variables with opaque terms whose memberships are in every order, tied, zero, negative, NaN or raising.")


# ---------------------------------------------------------------------------------------------- C08
def c08(chk):
    chk.rule("membership", "the membership is the aggregation folded from 0 over every term's implied membership")
    chk.rule("edge", "empty is 0, NaN gives NaN, a missing aggregation, implication or term raises a fuzzylite exception")
    chk.rule("degree", "the activation degree of a term aggregates the degrees of all of its activations, by sum without operator")
    chk.rule("grouped", "grouping gives one activation per distinct term, in first-occurrence order, with that degree, keeping name, range and aggregation")
    chk.rule("maximal", "highest and maximal activated terms are those with the greatest positive degree")
    I, W = chk.I, World(chk)
    rng = random.Random(chk.seed)
    seqs = ["", "a", "ab", "aa", "aba", "abc", "aab", "baca", "aaaa", "abcabc"]
    if chk.thorough:
        seqs += ["".join(rng.choice("abcd") for _ in range(rng.randint(3, 9))) for _ in range(60)]

    def build(I, s, agg="agg", degs=None):
        g = I.make("Aggregated", "out", N.leaf("min", 0.0, 1e-9), N.leaf("max", 1.0, 1.0 + 1e-9), W.snorm(agg) if agg else None)
        T = {}
        ds = []
        for k, c in enumerate(s):
            if c not in T:
                T[c] = W.term("term_" + c)
            d = degs[k] if degs else leaf("deg%d" % k, 0.1 + 0.07 * ((k * 5) % 11))
            I.call(g, "addTerm", T[c], d, W.tnorm("imp%d" % (k % 2)))
            ds.append(d)
        return g, T, ds
    S = algebra("S", "agg")
    for s in seqs:
        def sc(I):
            g, T, ds = build(I, s)
            x = leaf("x", 0.4)
            parts = [algebra("T", "imp%d" % (k % 2))(mu("term_" + c, x), ds[k]) for k, c in enumerate(s)]
            r = expect(I.get(g, "membership", x), S(N.const(0.0), *parts), "membership of %s" % s)
            return None if r else False
        chk.obl("membership", "Aggregated::membership", s, sc, where=chk.loc("Aggregated", "membership", 1))
        for agg in ("agg", None):
            def sc(I):
                g, T, ds = build(I, s, agg)
                other = W.term("term_other")
                r = expect(I.get(g, "activationDegree", other), N.const(0.0), "degree of a term that is not activated")
                for c, t in T.items():
                    mine = [d for d, k in zip(ds, s) if k == c]
                    if agg:
                        want = S(N.const(0.0), *mine)
                    else:
                        want = Num(sum(d.lo for d in mine) - 1e-9, sum(d.hi for d in mine) + 1e-9) if len(mine) > 1 else mine[0]
                    expect(I.get(g, "activationDegree", t), want, "degree of %s in %s" % (c, s))
            chk.obl("degree", "Aggregated::activationDegree", "%s, aggregation %s" % (s, agg), sc, where=chk.loc("Aggregated", "activationDegree", 1))

            def sc(I):
                g, T, ds = build(I, s, agg)
                r = I.val(I.call(g, "grouped"))
                order = []
                for c in s:
                    if c not in order:
                        order.append(c)
                got = terms_of(I, r)
                got2 = [(I.get(a, "getTerm"), I.get(a, "getDegree"), I.get(a, "getImplication")) for a in I.val(I.call(g, "groupedTerms")).x]
                for gg, nm in ((got, "grouped"), (got2, "groupedTerms")):
                    if [t for t, d, i in gg] != [T[c] for c in order]:
                        raise Violated("%s of %s lists %s" % (nm, s, show([t for t, d, i in gg])))
                    for (t, d, i), c in zip(gg, order):
                        mine = [dd for dd, k in zip(ds, s) if k == c]
                        want = S(*mine) if agg else (Num(sum(x.lo for x in mine) - 1e-9, sum(x.hi for x in mine) + 1e-9) if len(mine) > 1 else mine[0])
                        expect(d, want, "%s degree of %s in %s" % (nm, c, s))
                if I.get(r, "getName") != "out":
                    raise Violated("grouping loses the name")
                expect(I.get(r, "getMinimum"), N.leaf("min", 0.0, 1e-9), "minimum of the grouped fuzzy output")
                expect(I.get(r, "getMaximum"), N.leaf("max", 1.0, 1.0 + 1e-9), "maximum of the grouped fuzzy output")
                ag = I.get(r, "getAggregation")
                if (ag is None) != (agg is None):
                    raise Violated("grouping changes the aggregation operator")
                if [(t, i) for t, d, i in terms_of(I, g)] != [(T[c], i) for c, (t, d, i) in zip(s, terms_of(I, g))]:
                    raise Violated("grouping changes the fuzzy output")
                for (t, d, i), w in zip(terms_of(I, g), ds):
                    expect(d, w, "degree in the original after grouping")
            chk.obl("grouped", "Aggregated::grouped", "%s, aggregation %s" % (s, agg), sc, where=chk.loc("Aggregated", "grouped"))
    # ---- particular memberships and degrees under every operator: nothing is skipped, whatever was reached
    VAL = (0.0, 1.0, 0.25, 0.75, float("nan"))
    const = lambda v: N.NAN if v != v else N.const(v)
    snorms = ["AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"]
    tn_of = ("Minimum", "AlgebraicProduct", "EinsteinProduct")
    for ai, agg in enumerate(snorms + [None]):
        cases = [(s, v) for s in ("a", "ab", "aa") for v in itertools.product(VAL, repeat=len(s))] + [(s, v) for s in ("abc", "aba", "aab") for v in itertools.product(VAL, repeat=3)
                                                                                                   if chk.thorough or zlib.crc32(repr((agg, s, v)).encode()) % 7 == 0 or all(x == x and x >= 0.75 for x in v)]
        for s, v in cases:
            def sc(I, agg=agg, s=s, v=v, ai=ai):
                S = I.make(agg) if agg else None
                T = I.make(tn_of[ai % 3])
                g = I.make("Aggregated", "out", 0.0, 1.0, S)
                ts = {c: W.term("term_" + c, {"value": const(VAL[ord(c) % 4] if (ord(c) + ai) % 2 else 1.0)}) for c in s}
                acc = N.const(0.0)
                deg = {}
                for c, d in zip(s, v):
                    I.call(g, "addTerm", ts[c], const(d), T)
                    deg.setdefault(c, []).append(const(d))
                    if agg:
                        acc = I.get(S, "compute", acc, I.get(T, "compute", ts[c].ext["value"], const(d)))
                if agg:
                    expect(I.get(g, "membership", N.const(0.5)), acc, "membership")
                add = (lambda a, b: I.get(S, "compute", a, b)) if agg else (lambda a, b: I.get(I.make("UnboundedSum"), "compute", a, b))
                gr = {I.get(t, "getName"): d for t, d, i in terms_of(I, I.val(I.call(g, "grouped")))}
                for c, ds in deg.items():
                    if agg in ("DrasticSum", "NilpotentMaximum") and any(d.only_nan() for d in ds):
                        continue    # these operators have no documented result for undefined degrees
                    w = ds[0]
                    for d in ds[1:]:
                        w = add(w, d)
                    expect(I.get(g, "activationDegree", ts[c]), w, "activation degree of " + c)
                    expect(gr["term_" + c], w, "grouped degree of " + c)
            chk.obl("membership" if agg else "degree", "Aggregated::membership" if agg else "Aggregated::activationDegree", "%s with degrees %s, aggregation %s" % (s, v, agg), sc,
                    where=chk.loc("Aggregated", "membership" if agg else "activationDegree", 1))
    for p in NEAR:
        def sc(I, p=p):
            g, T, ds = build(I, "abcdef"[:len(p)], "agg", [N.const(x) for x in p])
            ts = list(T.values())
            best = max(p)
            got = [(I.get(a, "getTerm"), I.get(a, "getDegree")) for a in I.val(I.call(g, "maximallyActivatedTerms")).x]
            multiset(I, got, [(t, N.const(d)) for t, d in zip(ts, p) if d == best], "maximally activated terms of degrees %s" % (p,))
            t = I.get(I.val(I.call(g, "highestActivatedTerm")), "getTerm")
            if not any(t is x for x, d in zip(ts, p) if d == best):
                raise Violated("the highest activated term of degrees %s is number %s" % (p, next((k + 1 for k, x in enumerate(ts) if x is t), None)))
        chk.obl("maximal", "Aggregated::maximallyActivatedTerms", "degrees %s" % (p,), sc, where=chk.loc("Aggregated", "maximallyActivatedTerms"))
    # two terms may have the same name: they are different terms all the same
    for s in ("ab", "aba", "abab", "abc", "bcb"):
        for agg in ("agg", None):
            def sc(I, s=s, agg=agg):
                g, T, ds = build(I, s, agg)
                for t in T.values():
                    I.call(t, "setName", I.std.SStr("same"))
                other = I.make("Triangle", "same", 0.0, 1.0, 2.0)
                expect(I.get(g, "activationDegree", other), N.const(0.0), "degree of a term that is not activated but has the name of one that is")
                order = [c for k, c in enumerate(s) if c not in s[:k]]
                for c in order:
                    mine = [d for d, k in zip(ds, s) if k == c]
                    w = S(N.const(0.0), *mine) if agg else (Num(sum(d.lo for d in mine) - 1e-9, sum(d.hi for d in mine) + 1e-9) if len(mine) > 1 else mine[0])
                    expect(I.get(g, "activationDegree", T[c]), w, "degree of one of %d terms of one name" % len(order))
            chk.obl("degree", "Aggregated::activationDegree", "%s of one name, aggregation %s" % (s, agg), sc, where=chk.loc("Aggregated", "activationDegree", 1))
    wm = chk.loc("Aggregated", "membership", 1)
    for agg in ("agg", None):
        def sc(I):
            g, T, ds = build(I, "", agg)
            expect(I.get(g, "membership", leaf("x", 0.4)), N.const(0.0), "membership of an empty fuzzy output")
            expect(I.get(g, "membership", N.NAN), N.NAN, "membership of NaN")
            if not I.truth(I.get(g, "isEmpty")):
                raise Violated("isEmpty is false for an empty fuzzy output")
        chk.obl("edge", "Aggregated::membership", "empty, aggregation %s" % agg, sc, where=wm)
    for s in ("a", "ab", "aba"):
        def sc(I):
            g, T, ds = build(I, s, None)
            expect_throw(I, lambda: I.call(g, "membership", leaf("x", 0.4)), "membership without aggregation operator")
        chk.obl("edge", "Aggregated::membership", "%s without aggregation" % s, sc, where=wm)

        def sc(I):
            g, T, ds = build(I, s)
            I.call(g, "addTerm", list(T.values())[0], leaf("d", 0.5), None)
            expect_throw(I, lambda: I.call(g, "membership", leaf("x", 0.4)), "membership without implication operator")
        chk.obl("edge", "Activated::membership", "%s, last without implication" % s, sc, where=chk.loc("Activated", "membership", 1))

    def sc(I):
        a = I.make("Activated", None, leaf("d", 0.5), W.tnorm("imp0"))
        expect_throw(I, lambda: I.call(a, "membership", leaf("x", 0.4)), "activated membership without term")
        t = W.term("t")
        b = I.make("Activated", t, leaf("d", 0.5), None)
        expect_throw(I, lambda: I.call(b, "membership", leaf("x", 0.4)), "activated membership without implication")
        c = I.make("Activated", t, leaf("d", 0.5), W.tnorm("imp0"))
        expect(I.get(c, "membership", leaf("x", 0.4)), algebra("T", "imp0")(mu("t", leaf("x", 0.4)), leaf("d", 0.5)), "activated membership")
        expect(I.get(c, "membership", N.NAN), N.NAN, "activated membership of NaN")
    chk.obl("edge", "Activated::membership", "operators", sc, where=chk.loc("Activated", "membership", 1))
    dv = {"h": 0.8, "m": 0.5, "l": 0.2}
    for p in ["", "z", "n", "hml", "lmh", "mhl", "hh", "lhh", "hlh", "zz", "nh", "hn", "zlz", "mmh", "hmm"]:
        def sc(I):
            degs = [N.const(0.0) if c == "z" else N.NAN if c == "n" else N.const(dv[c]) if p.count(c) > 1 else leaf("g%d" % k, dv[c]) for k, c in enumerate(p)]
            g, T, ds = build(I, "abcdef"[:len(p)], "agg", degs)
            ts = list(T.values())
            best = max([d.lo for d in degs if not d.only_nan() and d.lo > 0], default=None)
            want = [(t, d) for t, d in zip(ts, degs) if best is not None and not d.only_nan() and d.lo == best]
            got = [(I.get(a, "getTerm"), I.get(a, "getDegree")) for a in I.val(I.call(g, "maximallyActivatedTerms")).x]
            multiset(I, got, want, "maximally activated terms of %s" % p)
            h = I.val(I.call(g, "highestActivatedTerm"))
            t = I.get(h, "getTerm")
            if want and not any(t is w for w, d in want) or not want and t is not None:
                raise Violated("highest activated term of %s is %r" % (p, t))
            if want:
                expect(I.get(h, "getDegree"), want[0][1], "degree of the highest activated term")
        chk.obl("maximal", "Aggregated::maximallyActivatedTerms", p, sc, where=chk.loc("Aggregated", "maximallyActivatedTerms"))
    return ("Abstract interpretation of Aggregated and Activated with opaque terms and norms (free commutative monoids) over sequences of activations with repeated terms, with and "
            "without operators; results are compared by value number, selections by identity.")
