"""C23: parameters, configure, constructors."""
import itertools
from flai import num as N
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from .fuzzy import World, expect, expect_throw, opaque, FLN
from .terms import TERMS
from . import objects as OB
from .objects import Values, query, agrees, describe, demand_same, short, NOT_REGISTERED

COUNT = {"First": 2, "Last": 2, "Threshold": 2, "Highest": 1, "Lowest": 1, "Constant": 1}


def getter(a):
    return "get" + a[0].upper() + a[1:]


def params(I, o):
    return I.get(o, "parameters")


def text(I, v):
    return I.val(I.call_uid(next(f["u"] for f in I.p.byname[FLN + "Operation::str"] if f["params"][0]["t"].startswith("double")), None,
                            [v] + I.default_args(next(f["u"] for f in I.p.byname[FLN + "Operation::str"] if f["params"][0]["t"].startswith("double")), 1)))


def c23(chk):
    I, p = chk.I, chk.p
    chk.rule("round trip", "configuring a fresh instance from the parameters text of one in which every attribute has a distinct opaque value makes every attribute equal")
    chk.rule("order", "the parameters text lists the documented parameters in the documented order, then the height when it is not 1")
    chk.rule("constructor", "each constructor argument reaches the attribute of that name")
    chk.rule("too few", "a text with fewer parameters than the class has, or with text that is no number, raises an exception; the empty text changes nothing")
    classes = [(q, "term") for q in p.subclasses(FLN + "Term") if short(q) not in NOT_REGISTERED and p.cls[q].file.startswith(("fuzzylite/", "src/"))]
    classes += [(q, "activation") for q in p.subclasses(FLN + "Activation") if p.cls[q].file.startswith(("fuzzylite/", "src/"))]
    if len(classes) < 25:
        raise AnalysisBroken("only %d classes with parameters" % len(classes))
    IGN = ("getName", "getEngine", "isLoaded", "root", "variables")
    for q, kind in classes:
        c = short(q)
        w = chk.loc(c, "configure", 1) or chk.loc(c)
        for hcase in (("written", "one", "unknown", "infinite") if kind == "term" else ("-",)):
            for back in ("fresh", "populated"):
                if back == "populated" and hcase != "written":
                    continue

                def rt(I, q=q, c=c, hcase=hcase, back=back, kind=kind):
                    V = Values(I, 20)
                    a = I.make(q)
                    OB.populate(I, a, V)
                    if kind == "term":
                        scaled = c in TERMS or c == "Discrete"
                        h = {"written": opaque("height", c), "one": N.const(1.0), "unknown": N.leaf("height", 0.0, 3.0), "infinite": N.const(INF)}[hcase]
                        I.call(a, "setHeight", h if scaled else 1.0)
                    t = params(I, a)
                    b = I.make(q)
                    if back == "populated":
                        OB.populate(I, b, Values(I, 400))
                        if kind == "term":
                            I.call(b, "setHeight", 1.0)
                    I.call(b, "configure", t)
                    ign = IGN + (("getHeight",) if hcase == "unknown" else ())
                    r = demand_same(describe(I, a, ignore=ign), describe(I, b, ignore=ign), "configured from its own parameters %r, the %s" % (plain(t), c))
                    if hcase == "unknown" and not near(I.get(a, "getHeight"), I.get(b, "getHeight"), 1e-5):
                        if near(I.get(a, "getHeight"), I.get(b, "getHeight"), 1e-5) is False:
                            raise Violated("a height of %s is read back as %s" % (show(I.get(a, "getHeight")), show(I.get(b, "getHeight"))))
                    if params(I, b) != t:
                        raise Violated("configured from %r, the parameters are %r" % (plain(t), plain(params(I, b))))
                    return r
                chk.obl("round trip", c, "height %s onto %s" % (hcase, back), rt, where=w)

        if c in TERMS:
            attrs = TERMS[c][0]

            def order(I, c=c, attrs=attrs):
                V = Values(I, 40)
                vs = [V.num() for _ in attrs]
                h = V.num()
                for withh in (False, True):
                    b = I.make(c)
                    I.call(b, "configure", " ".join(text(I, v) for v in vs + ([h] if withh else [])))
                    for a, v in zip(attrs + (["height"] if withh else []), vs + [h]):
                        if same(I.get(b, getter(a)), v) is False:
                            raise Violated("configured with %s = %s, %s() is %s" % (a, show(v), getter(a), show(I.get(b, getter(a)))))
                    if not withh and same(I.get(b, "getHeight"), N.const(1.0)) is False:
                        raise Violated("configured without a height, the height is %s" % show(I.get(b, "getHeight")))
                    a2 = I.make(c)
                    for a, v in zip(attrs, vs):
                        I.call(a2, "set" + a[0].upper() + a[1:], v)
                    if withh:
                        I.call(a2, "setHeight", h)
                    got = params(I, a2).split()
                    want = [text(I, v) for v in vs + ([h] if withh else [])]
                    if got != want:
                        raise Violated("the parameters are written as %s, documented %s" % ([plain(x) for x in got], ", ".join(attrs)))
            chk.obl("order", c, "all", order, where=w)

            def con(I, c=c, attrs=attrs):
                V = Values(I, 60)
                for n in range(len(attrs), len(attrs) + 2):
                    vs = [V.num() for _ in range(n)]
                    o = I.make(c, "the name", *vs)
                    for a, v in zip(attrs + ["height"], vs):
                        if same(I.get(o, getter(a)), v) is False:
                            raise Violated("constructed with %s = %s, %s() is %s" % (a, show(v), getter(a), show(I.get(o, getter(a)))))
                    if n == len(attrs) and same(I.get(o, "getHeight"), N.const(1.0)) is False:
                        raise Violated("constructed without a height, the height is %s" % show(I.get(o, "getHeight")))
                    if I.get(o, "getName") != "the name":
                        raise Violated("constructed with a name, getName() is %r" % I.get(o, "getName"))
            chk.obl("constructor", c, "all", con, where=chk.loc(c))

        need = len(TERMS[c][0]) if c in TERMS else COUNT.get(c, 0)
        for k in range(1, need):
            def few(I, q=q, k=k, c=c):
                V = Values(I, 80)
                a = I.make(q)
                OB.populate(I, a, V)
                if p.is_a(q, FLN + "Term"):
                    I.call(a, "setHeight", 1.0)
                t = " ".join(params(I, a).split()[:k])
                expect_throw(I, lambda: I.call(I.make(q), "configure", t), "configuring a %s with %d parameters" % (c, k))
            chk.obl("too few", c, "%d of %d" % (k, need), few, where=w)
        if need or c in ("Linear", "Discrete"):
            for j in range(max(need, 2 if c in ("Linear", "Discrete") else 0)):
                def bad(I, q=q, c=c, j=j):
                    a = I.make(q)
                    OB.populate(I, a, Values(I, 90))
                    ws = params(I, a).split()
                    ws[j] = "abc"
                    expect_throw(I, lambda: I.call(I.make(q), "configure", " ".join(ws)), "configuring a %s with the text abc as parameter %d" % (c, j + 1))
                chk.obl("too few", c, "no number at %d" % j, bad, where=w)

            def empty(I, q=q, c=c):
                a = I.make(q)
                OB.populate(I, a, Values(I, 95))
                d = describe(I, a)
                I.call(a, "configure", "")
                return demand_same(d, describe(I, a), "after configuring with the empty text, the %s" % c)
            chk.obl("too few", c, "empty", empty, where=w)

    # particular numbers: zero, negative, large, undefined and infinite ones keep their meaning at every place
    chk.rule("numbers", "zero, negative, large, undefined and infinite parameters are read and written as they are, at every place")
    SPECIAL = (0.0, -0.0 + 0.0, -0.5, -7.25, 0.75, 12345.0, -1e6, float("nan"), INF, -INF)
    SPECIAL = tuple(dict.fromkeys(SPECIAL))
    shapes = [(c, TERMS[c][0]) for c in TERMS] + [("Linear", ["c%d" % k for k in range(n)]) for n in (1, 2, 3)] + [("Discrete", ["p%d" % k for k in range(n)]) for n in (2, 4)]
    for c, attrs in shapes:
        for withh in ((False, True) if c in TERMS else (False,)):
            for v in SPECIAL:
                def sn(I, c=c, attrs=attrs, withh=withh, v=v):
                    for j in range(len(attrs) + withh):
                        vs = [0.25 * (k + 1) for k in range(len(attrs) + withh)]
                        vs[j] = v
                        if withh and vs[-1] == 1.0 or withh and vs[-1] != vs[-1]:
                            vs[-1] = 0.5
                        ns = [N.NAN if x != x else N.const(x) for x in vs]
                        t = " ".join(text(I, x) for x in ns)
                        b = I.make(c)
                        I.call(b, "configure", t)
                        if c == "Linear":
                            got = [I.num(I.val(x)) for x in I.val(I.call(b, "coefficients")).x]
                        elif c == "Discrete":
                            got = [I.num(I.val(z)) for z in itertools.chain(*[(x.first, x.second) for x in I.val(I.call(b, "xy")).x])]
                        else:
                            got = [I.get(b, getter(a)) for a in attrs + (["height"] if withh else [])]
                        if len(got) != len(ns):
                            raise Violated("configured with %d numbers a %s has %d" % (len(ns), c, len(got)))
                        for k, (g, w) in enumerate(zip(got, ns)):
                            if same(g, w) is False:
                                raise Violated("configured with %s as number %d a %s has %s" % (show(w), k + 1, c, show(g)))
                        if params(I, b) != t:
                            raise Violated("a %s configured with %r is written %r" % (c, plain(t), plain(params(I, b))))
                chk.obl("numbers", c, "%d numbers%s, one of them %r" % (len(attrs), " and a height" if withh else "", v), sn, where=chk.loc(c, "configure", 1))
    for c, first in [("Threshold", o) for o in "< <= == != >= >".split()] + [("First", "3"), ("Last", "0"), ("First", "1"), ("Last", "12")]:
        for v in SPECIAL:
            def sa(I, c=c, first=first, v=v):
                w = N.NAN if v != v else N.const(v)
                b = I.make(c)
                t = first + " " + text(I, w)
                I.call(b, "configure", t)
                g = I.get(b, "getValue" if c == "Threshold" else "getThreshold")
                if same(g, w) is False:
                    raise Violated("configured with %r a %s has the threshold %s" % (plain(t), c, show(g)))
                if params(I, b) != t:
                    raise Violated("a %s configured with %r is written %r" % (c, plain(t), plain(params(I, b))))
            chk.obl("numbers", c, "%s %r" % (first, v), sa, where=chk.loc(c, "configure", 1))

    # constructors and static creators whose arguments are lists
    def disc(I):
        V = Values(I, 120)
        for n in (2, 4, 6):
            vs = [V.num() for _ in range(n)]
            o = I.val(I.scall(FLN + "Discrete::create", "d", n, *vs)) if False else None
            ps = [I.std.Pair(OB.Cell(vs[i]), OB.Cell(vs[i + 1])) for i in range(0, n, 2)]
            o = I.make("Discrete")
            I.call(o, "setXY", I.std.Vec(ps, "std::pair<double, double>"))
            want = [text(I, v) for v in vs]
            if params(I, o).split() != want:
                raise Violated("the pairs are written as %r" % plain(params(I, o)))
            b = I.make("Discrete")
            I.call(b, "configure", " ".join(want))
            got = [I.num(I.val(z)) for z in itertools.chain(*[(x.first, x.second) for x in I.val(I.call(b, "xy")).x])]
            if len(got) != n or any(same(x, y) is False for x, y in zip(got, vs)):
                raise Violated("%d pairs are read back as %s" % (n // 2, show(got)))
            if same(I.get(b, "getHeight"), N.const(1.0)) is False:
                raise Violated("without a height, the height is %s" % show(I.get(b, "getHeight")))
    chk.obl("order", "Discrete", "pairs", disc, where=chk.loc("Discrete", "configure", 1))
    for n in (0, 1, 2, 4):
        for m in (0, 1, 3):
            for h in (1.0, 0.5, 0.0, 2.0):
                if n == 0 and h == 1.0:
                    continue    # written as the empty text, which configures nothing

                def over(I, n=n, m=m, h=h):
                    pairs = lambda k, s: I.std.Vec([I.std.Pair(OB.Cell(N.const(s + i)), OB.Cell(N.const(0.25 * i))) for i in range(k)], "std::pair<double, double>")
                    a, b = I.make("Discrete"), I.make("Discrete")
                    I.call(a, "setXY", pairs(n, 1.0))
                    I.call(a, "setHeight", N.const(h))
                    I.call(b, "setXY", pairs(m, 5.0))
                    I.call(b, "setHeight", N.const(0.75))
                    t = params(I, a)
                    I.call(b, "configure", t)
                    if len(I.val(I.call(b, "xy")).x) != n:
                        raise Violated("a term of %d pairs configured with %r, the text of one of %d pairs, has %d" % (m, plain(t), n, len(I.val(I.call(b, "xy")).x)))
                    if params(I, b) != t:
                        raise Violated("configured with %r it is written %r" % (plain(t), plain(params(I, b))))
                chk.obl("numbers", "Discrete", "%d pairs of height %s onto %d" % (n, h, m), over, where=chk.loc("Discrete", "configure", 1))

    def lin(I):
        V = Values(I, 140)
        for n in (1, 2, 5):
            vs = [V.num() for _ in range(n)]
            b = I.make("Linear")
            I.call(b, "configure", " ".join(text(I, v) for v in vs))
            got = [I.num(I.val(x)) for x in I.val(I.call(b, "coefficients")).x]
            if len(got) != n or any(same(x, y) is False for x, y in zip(got, vs)):
                raise Violated("%d coefficients are read back as %s" % (n, show(got)))
            if params(I, b).split() != [text(I, v) for v in vs]:
                raise Violated("the coefficients are written as %r" % plain(params(I, b)))
    chk.obl("order", "Linear", "coefficients", lin, where=chk.loc("Linear", "configure", 1))
    for cmp_ in "< <= == != >= >".split():
        def th(I, cmp_=cmp_):
            v = opaque("threshold")
            o = I.make("Threshold", cmp_, v)
            if params(I, o).split() != [cmp_, text(I, v)]:
                raise Violated("a threshold %s v is written %r" % (cmp_, plain(params(I, o))))
            b = I.make("Threshold")
            I.call(b, "configure", cmp_ + " " + text(I, v))
            if I.get(b, "getComparison") != I.get(o, "getComparison") or same(I.get(b, "getValue"), v) is False:
                raise Violated("configured with %r, the comparison is %s and the value %s" % (cmp_, I.get(b, "getComparison"), show(I.get(b, "getValue"))))
        chk.obl("order", "Threshold", cmp_, th, where=chk.loc("Threshold", "configure", 1))
    for c in ("First", "Last"):
        def fl(I, c=c):
            n, t = N.leaf("n", 2, 2), opaque("threshold")
            b = I.make(c)
            I.call(b, "configure", "7 " + text(I, t))
            if I.get(b, "getNumberOfRules") != 7 or same(I.get(b, "getThreshold"), t) is False:
                raise Violated("configured with 7 rules and threshold t it has %s and %s" % (I.get(b, "getNumberOfRules"), show(I.get(b, "getThreshold"))))
        chk.obl("order", c, "all", fl, where=chk.loc(c, "configure", 1))
    for c in ("Highest", "Lowest"):
        def hl(I, c=c):
            b = I.make(c)
            I.call(b, "configure", "7")
            if I.get(b, "getNumberOfRules") != 7:
                raise Violated("configured with 7 rules it has %s" % I.get(b, "getNumberOfRules"))
        chk.obl("order", c, "all", hl, where=chk.loc(c, "configure", 1))
    return "Interprets parameters(), configure() and the constructors of every concrete term and activation class of the resolved program with opaque numbers as text atoms."


def plain(t):
    return "".join("#" if 0xE000 <= ord(ch) <= 0xEFFF else ch for ch in t)
