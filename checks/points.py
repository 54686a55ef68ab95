"""C46: discrete terms and the points they are made of."""
import itertools
from flai import num as N
from flai.check import AnalysisBroken, show, Violated, Undecided, CppThrow, Obj
from flai.interp import Cell
from .data import invoke
from .fuzzy import World, expect, expect_throw, opaque, FLN
from .params import text, plain
from .objects import short

PAIR = "std::pair<double, double>"


def numbers(I, ns):
    return I.std.Vec([Cell(n) for n in ns], "double")


def points(I, ps):
    return I.std.Vec([Cell(I.std.Pair(Cell(a), Cell(b))) for a, b in ps], "fuzzylite::Discrete::Pair")


def read(I, v):
    """The pairs of a vector of pairs."""
    out = []
    for x in I.val(v).x:
        x = I.val(x)
        out.append((I.num(I.val(x.first)), I.num(I.val(x.second))))
    return out


def numbers_of(I, v):
    return [I.num(I.val(x)) for x in I.val(v).x]


def pick(I, name, kinds, const=None):
    """The static or member function of Discrete with parameters of the given kinds."""
    for _, m in I.p.methods(FLN + "Discrete", name):
        if len(m["pt"]) == len(kinds) and all(k in x["t"] for k, x in zip(kinds, m["pt"])) and (const is None or bool(m["const"]) == const):
            return m
    raise AnalysisBroken("no Discrete::%s(%s)" % (name, ", ".join(kinds)))


def static(I, name, kinds, *args):
    m = pick(I, name, kinds)
    return I.val(I.call_uid(m["u"], None, list(args)))


def member(I, o, name, kinds, *args, const=None):
    m = pick(I, name, kinds, const)
    return I.invoke(m["u"], o, list(args), m["virt"])


def equal(I, got, want, what):
    if len(got) != len(want):
        raise Violated("%s: %d values, specified %d" % (what, len(got), len(want)))
    r = True
    for k, (a, b) in enumerate(zip(got, want)):
        for x, y in zip(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)):
            e = expect(x, y, "%s, value %d" % (what, k + 1))
            r = r and e
    return None if r else False


def c46(chk):
    I, p = chk.I, chk.p
    W = World(chk)
    chk.rule("convert", "a list of numbers and the pairs it stands for convert into each other without loss; a missing last value is refused or replaced by the given one")
    chk.rule("access", "the values of x, of y, the pairs and the single points of a term are those it holds; writing one changes that one; there is none beyond the last")
    chk.rule("sort", "sorting keeps exactly the points and orders them by x")
    chk.rule("sample", "a discretised term has the given number of equal steps from start to end and at each the membership of the term, limited to [0, 1] when asked")
    chk.rule("text", "pairs are written in order with the given signs around, between and after them")
    wd = lambda n: chk.loc("Discrete", n)
    leaves = lambda n: [opaque("value", k, lo=-5, hi=5) for k in range(n)]
    for n in range(0, 8):
        def conv(I, n=n):
            ns = leaves(n)
            f = lambda: read(I, static(I, "toPairs", ["vector<"], numbers(I, ns)))
            if n % 2:
                expect_throw(I, f, "converting %d values to pairs" % n)
                return None
            return equal(I, f(), list(zip(ns[::2], ns[1::2])), "the pairs of %d values" % n)
        chk.obl("convert", "Discrete::toPairs", "%d values" % n, conv, where=wd("toPairs"))

        def miss(I, n=n):
            ns, z = leaves(n), opaque("missing")
            v = numbers(I, ns)
            got = read(I, static(I, "toPairs", ["vector<", "double"], v, z))
            full = ns + ([z] if n % 2 else [])
            r = equal(I, got, list(zip(full[::2], full[1::2])), "the pairs of %d values with one given for a missing one" % n)
            r2 = equal(I, numbers_of(I, v), ns, "the list given")
            return None if r is None and r2 is None else False
        chk.obl("convert", "Discrete::toPairs", "%d values, a replacement" % n, miss, where=wd("toPairs"))

        def back(I, n=n):
            ps = list(zip(leaves(2 * n)[::2], leaves(2 * n)[1::2]))
            return equal(I, numbers_of(I, static(I, "toVector", ["vector<"], points(I, ps))), [x for a in ps for x in a], "the values of %d pairs" % n)
        chk.obl("convert", "Discrete::toVector", "%d pairs" % n, back, where=wd("toVector"))

    for n in range(0, 5):
        ps = lambda n=n: [(opaque("x", k, lo=k, hi=k + 0.5), opaque("y", k, lo=0, hi=1)) for k in range(n)]

        def acc(I, n=n, ps=ps):
            P = ps()
            o = I.make("Discrete", "d")
            I.call(o, "setXY", points(I, P))
            ok = equal(I, read(I, member(I, o, "xy", [], const=True)), P, "the pairs")
            rs = [ok, equal(I, read(I, member(I, o, "xy", [], const=False)), P, "the pairs to change"),
                  equal(I, numbers_of(I, member(I, o, "x", [])), [a for a, _ in P], "the values of x"),
                  equal(I, numbers_of(I, member(I, o, "y", [])), [b for _, b in P], "the values of y")]
            for c in (True, False):
                for k in range(n):
                    rs.append(equal(I, [I.num(I.val(member(I, o, "x", ["long"], k, const=c))), I.num(I.val(member(I, o, "y", ["long"], k, const=c)))], list(P[k]), "point %d" % k))
                    rs.append(equal(I, read(I, I.std.Vec([Cell(I.val(member(I, o, "xy", ["long"], k, const=c)))], PAIR)), [P[k]], "pair %d" % k))
                for m in ("x", "y", "xy"):
                    expect_throw(I, lambda: member(I, o, m, ["long"], n, const=c), "%s(%d) of %d points" % (m, n, n), None)
            return None if all(r is None for r in rs) else False
        chk.obl("access", "Discrete", "%d points" % n, acc, where=wd("xy"))
        for k in range(n):
            for m in ("x", "y"):
                def wr(I, n=n, k=k, m=m, ps=ps):
                    P = ps()
                    o = I.make("Discrete", "d")
                    I.call(o, "setXY", points(I, P))
                    z = opaque("new")
                    ref = member(I, o, m, ["long"], k, const=False)
                    if isinstance(ref, N.Num):
                        return False
                    ref.v = z
                    P[k] = (z, P[k][1]) if m == "x" else (P[k][0], z)
                    return equal(I, read(I, member(I, o, "xy", [], const=True)), P, "the pairs after writing %s(%d)" % (m, k))
                chk.obl("access", "Discrete", "writing %s(%d) of %d points" % (m, k, n), wr, where=wd(m))

    for n in range(0, 5 if not chk.thorough else 6):
        for perm in itertools.permutations(range(n)):
            for how in ("the term", "a list"):
                def so(I, perm=perm, how=how):
                    P = [(opaque("x", k, lo=k, hi=k + 0.5), opaque("y", k, lo=0, hi=1)) for k in perm]
                    o = I.make("Discrete", "d")
                    v = points(I, P)
                    I.call(o, "setXY", v)
                    if how == "the term":
                        member(I, o, "sort", [])
                        got = member(I, o, "xy", [], const=True)
                    else:
                        static(I, "sort", ["vector<"], v)
                        got = v
                    return equal(I, read(I, got), [(opaque("x", k, lo=k, hi=k + 0.5), opaque("y", k, lo=0, hi=1)) for k in sorted(perm)], "%s sorted from order %s" % (how, perm))
                chk.obl("sort", "Discrete::sort", "%s, order %s" % (how, perm), so, where=wd("sort"))
    def ties(I):
        P = [(N.const(1.0), opaque("y", 0)), (N.const(0.0), opaque("y", 1)), (N.const(1.0), opaque("y", 2)), (N.const(0.0), opaque("y", 3))]
        v = points(I, P)
        static(I, "sort", ["vector<"], v)
        got = read(I, v)
        if [a.lo for a, _ in got] != [0.0, 0.0, 1.0, 1.0]:
            raise Violated("sorted by x, the values of x are %s" % show([a for a, _ in got]))
        if sorted(repr(b) for _, b in got) != sorted(repr(b) for _, b in P) or {repr(b) for _, b in got[:2]} != {repr(P[1][1]), repr(P[3][1])}:
            raise Violated("sorting points with equal x loses or moves values: %s" % show(got))
    chk.obl("sort", "Discrete::sort", "equal values of x", ties, where=wd("sort"))

    for lo, hi in ((-1.0, 2.0), (0.0, 1.0), (3.0, 1.0), (-7.5, -7.25)):
        for n in (1, 2, 3, 4, 10) + ((25, 100) if chk.thorough else ()):
            for limit in (True, False):
                for rng, ht in (((0.0, 1.0), 1.0), ((1.5, 2.0), 1.0), ((-2.0, -1.0), 1.0), ((1.5, 2.0), 2.0), ((0.6, 0.9), 0.5), ((-2.0, -1.0), 0.0)):
                    def sa(I, lo=lo, hi=hi, n=n, limit=limit, rng=rng, ht=ht):
                        at = []

                        def mu(I, this, a, *r):
                            at.append(I.num(a[0]))
                            return opaque("membership", len(at), lo=rng[0], hi=rng[1])
                        t = I.make("Triangle", "some name")
                        I.call(t, "setHeight", N.const(ht))
                        old = I.hooks.get(FLN + "Triangle::membership")
                        I.hooks[FLN + "Triangle::membership"] = mu
                        try:
                            d = static(I, "discretize", ["Term *", "double", "double", "int", "bool"], t, N.const(lo), N.const(hi), n, limit)
                        finally:
                            if old:
                                I.hooks[FLN + "Triangle::membership"] = old
                            else:
                                del I.hooks[FLN + "Triangle::membership"]
                        if d is None or short(d.dyn) != "Discrete" or I.get(d, "getName") not in ("some name", I.std.SStr("some name")) and getattr(I.get(d, "getName"), "v", None) != "some name":
                            raise Violated("discretising gives %s" % show(d))
                        got = read(I, member(I, d, "xy", [], const=True))
                        if len(got) != n + 1:
                            raise Violated("%d steps give %d points" % (n, len(got)))
                        r = True
                        for k, (x, y) in enumerate(got):
                            want = lo + k * (hi - lo) / n
                            if abs(x.lo - want) > 1e-9 or abs(x.hi - want) > 1e-9:
                                raise Violated("point %d of %d steps from %g to %g is at %s, specified %g" % (k, n, lo, hi, show(x), want))
                            m = [j for j, a in enumerate(at) if abs(a.lo - want) <= 1e-9]
                            if not m:
                                raise Violated("the membership at %g is not computed" % want)
                            mus = [opaque("membership", j + 1, lo=rng[0], hi=rng[1]) for j in m]
                            if limit and rng[0] > 1.0:
                                mus = [N.const(1.0)]
                            if limit and rng[1] < 0.0:
                                mus = [N.const(0.0)]
                            rs = []
                            for w in mus:
                                try:
                                    rs.append(expect(y, w, "the membership of point %d" % k))
                                except Violated as e:
                                    rs.append(e)
                            if all(isinstance(q, Violated) for q in rs):
                                raise rs[0]
                            r = r and any(q is True or q is None for q in rs)
                        return None if r else False
                    chk.obl("sample", "Discrete::discretize", "%d steps from %g to %g, memberships in [%g, %g], height %g, %s" % (n, lo, hi, rng[0], rng[1], ht, "limited" if limit else "as they are"), sa, where=wd("discretize"))

    for n in range(0, 4):
        for signs in (("(", ",", ")", " "), ("<", ":", "]", ";"), ("", " ", "", "\n"), ("[[", "--", "", ", "), ("", "", "", "")):
            def fx(I, n=n, signs=signs):
                P = [(opaque("x", k), opaque("y", k)) for k in range(n)]
                got = static(I, "formatXY", ["vector<"] + ["string"] * 4, points(I, P), *(I.std.SStr(s) for s in signs))
                got = got.v if hasattr(got, "v") else got
                a, b, c, d = signs
                want = d.join(a + text(I, x) + b + text(I, y) + c for x, y in P)
                if got != want:
                    raise Violated("%d pairs are written %r, specified %r" % (n, plain(got), plain(want)))
            chk.obl("text", "Discrete::formatXY", "%d pairs with %s" % (n, " ".join(repr(s) for s in signs)), fx, where=wd("formatXY"))
    return ("Interprets the conversions between lists and pairs, the element access, sorting (every order of up to four points), discretisation (every evaluation of the membership recorded) and text of "
            "discrete terms over opaque values.")
