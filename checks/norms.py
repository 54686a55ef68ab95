"""C11, C12, C13: norms and hedges equal their documented formulas on [0,1].

The domain is covered by boxes; on each box the abstract result of the current source is compared with the exact range of
the documented formula (all of them are monotone, so the range of a box is spanned by two of its corners)."""
import math, random
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, Violated

D = 2.5e-6      # the library compares with a tolerance of 1e-6: boxes keep that far from the lines where cases meet


def ein_p(a, b):
    return a * b / (2.0 - (a + b - a * b))


TN = {
    "AlgebraicProduct": lambda a, b: a * b,
    "BoundedDifference": lambda a, b: max(0.0, a + b - 1.0),
    "DrasticProduct": lambda a, b: min(a, b) if max(a, b) == 1.0 else 0.0,
    "EinsteinProduct": ein_p,
    "HamacherProduct": lambda a, b: 0.0 if a + b == 0 else a * b / (a + b - a * b),
    "Minimum": min,
    "NilpotentMinimum": lambda a, b: min(a, b) if a + b > 1.0 else 0.0,
}
SN = {
    "AlgebraicSum": lambda a, b: a + b - a * b,
    "BoundedSum": lambda a, b: min(1.0, a + b),
    "DrasticSum": lambda a, b: max(a, b) if min(a, b) == 0.0 else 1.0,
    "EinsteinSum": lambda a, b: (a + b) / (1.0 + a * b),
    "HamacherSum": lambda a, b: 1.0 if a * b == 1.0 else (a + b - 2.0 * a * b) / (1.0 - a * b),
    "Maximum": max,
    "NilpotentMaximum": lambda a, b: max(a, b) if a + b < 1.0 else 1.0,
    "NormalizedSum": lambda a, b: (a + b) / max(1.0, a + b),
    "UnboundedSum": lambda a, b: a + b,
}
HE = {
    "Any": lambda x: 1.0,
    "Not": lambda x: 1.0 - x,
    "Very": lambda x: x * x,
    "Somewhat": math.sqrt,
    "Extremely": lambda x: 2 * x * x if x <= 0.5 else 1 - 2 * (1 - x) * (1 - x),
    "Seldom": lambda x: math.sqrt(0.5 * x) if x <= 0.5 else 1 - math.sqrt(0.5 * (1 - x)),
}


def cells(n):
    """Cover of [0,1]: the points k/n and the open intervals between them (shrunk by the library's tolerance)."""
    out = []
    for k in range(n + 1):
        out.append((k / n, k / n))
        if k < n:
            out.append((k / n + D, (k + 1) / n - D))
    return out


def sharp(rng, m):
    """Narrow boxes anywhere in the domain."""
    out = []
    for _ in range(m):
        x = rng.uniform(0.01, 0.98)
        out.append((x, x + 1e-7))
    return out


def arg(name, c):
    return N.const(c[0]) if c[0] == c[1] else N.leaf(name, c[0], c[1])


def pairs(chk):
    rng = random.Random(chk.seed)
    n, m = (32, 400) if chk.thorough else (16, 60)
    cs = cells(n)
    boxes = [(a, b) for a in cs for b in cs]
    s = sharp(rng, m)
    boxes += list(zip(s, sharp(rng, m)))
    # close to the edges, the corners and the line a+b=1, at every scale
    g = sorted({v for k in range(2, 11) for d in (10.0 ** (-k / 2.0), 0.9 * 10.0 ** (-k / 2.0)) for v in (d, 1.0 - d)})
    boxes += [((a, a), (b, b)) for a in g for b in g if abs(a + b - 1.0) > 3e-6]
    boxes += [((a, a), (b, b)) for a in (0.25, 0.5, 0.875) for d in g if d <= 0.12 for b in (1.0 - a - d, 1.0 - a + d, a - d, a + d)]
    boxes += [((x, x), y) for x in (0.0, 1.0) for y in s[:m // 4]] + [(y, (x, x)) for x in (0.0, 1.0) for y in s[:m // 4]]
    return boxes


def run(chk, table, base):
    chk.rule("formula", "on every box of a cover of [0,1]x[0,1] the abstract result is compatible with the range of the documented formula")
    chk.rule("bounds", "at every point, also within the comparison tolerance of the lines where cases meet: compute(a,b) = compute(b,a), 0 <= result <= 1 "
             "(the unbounded sum: a+b), " + ("result <= min(a,b)" if table is TN else "result >= max(a,b)"))
    boxes = pairs(chk)
    I = chk.I
    for c, f in sorted(table.items()):
        q = "fuzzylite::" + c
        if q not in chk.p.cls or not chk.p.is_a(q, base):
            raise AnalysisBroken("class %s is not a %s any more" % (q, base))
        con, where = c + "::compute", chk.loc(c, "compute", 2)
        hold = {}

        def setup(I):
            o = hold.get("o")
            if o is None or not o.alive:
                o = hold["o"] = I.make(q)
            return o
        for ca, cb in boxes:
            lo, hi = f(ca[0], cb[0]), f(ca[1], cb[1])
            if lo > hi:
                lo, hi = hi, lo

            def sc(I):
                return I.get(setup(I), "compute", arg("a", ca), arg("b", cb))
            chk.interval("formula", con, "a in [%.9g,%.9g], b in [%.9g,%.9g]" % (ca + cb), sc, lo, hi, where)
        for a, b in near_lines(chk):
            def at(I):
                o = setup(I)
                r, s = ((v.lo, v.hi, v.nan) for v in (I.get(o, "compute", N.const(x), N.const(y)) for x, y in ((a, b), (b, a))))
                lo, hi = (0.0, min(a, b)) if table is TN else (max(a, b), a + b if c == "UnboundedSum" else 1.0)
                for v in (r, s):
                    if v[0] > v[1] or v[0] > hi + T or v[1] < lo - T:
                        raise Violated("compute gives %s, outside [%.17g, %.17g]" % ("nan" if v[0] > v[1] else "[%.17g, %.17g]" % v[:2], lo, hi))
                if r[0] > s[1] + T or s[0] > r[1] + T:
                    raise Violated("compute(a,b) = %.17g but compute(b,a) = %.17g" % (r[0], s[0]))
                return all(v[0] >= lo - T and v[1] <= hi + T and not v[2] for v in (r, s)) or "enclosure too wide"
            chk.obl("bounds", con, "a=%.10g, b=%.10g" % (a, b), at, where=where)
        chk.constructs.add(con)


T = 2e-9      # 1 - ab cancels near the corner


def near_lines(chk):
    e = [0.0, 3e-10, 4e-7, 9.9e-7, 1.1e-6, 3e-6]
    s = {0.0, 0.5, 1.0} | set(e) | {1.0 - x for x in e}
    out = {(a, b) for a in s for b in s}
    for a in (0.1, 0.25, 0.5, 0.7, 0.9):
        for d in e:
            for g in (d, -d):
                out.add((a, 1.0 - a + g))
                out.add((a, a + g))
    return sorted(out)


def tnorms(chk):
    run(chk, TN, "fuzzylite::TNorm")
    return ("Abstract interpretation (intervals with outward rounding, trace partitioning) of every TNorm::compute over a box cover of [0,1]^2 "
            "including all edges, corners and the line a+b=1 (up to the library's comparison tolerance); each abstract result is compared with the exact "
            "range of the documented t-norm, which implies symmetry, neutral and annihilating elements and the bounds.")


def snorms(chk):
    run(chk, SN, "fuzzylite::SNorm")
    return ("Abstract interpretation (intervals with outward rounding, trace partitioning) of every SNorm::compute over a box cover of [0,1]^2 "
            "including all edges, corners and the line a+b=1 (up to the library's comparison tolerance); each abstract result is compared with the exact "
            "range of the documented s-norm, which implies symmetry, the neutral element and the bounds.")


FORMULAS = {
    "x * x": lambda x: x * x, "1 - x": lambda x: 1.0 - x, "x ^ 0.5": math.sqrt, "0.25": lambda x: 0.25, "x": lambda x: x, "sqrt(x) / 2": lambda x: math.sqrt(x) / 2,
}


def formulas(chk, cs):
    """Hedges of formulas: the formula of the moment, evaluated at the degree given, whatever was evaluated before."""
    chk.rule("formula hedge", "a HedgeFunction transforms a degree by its current formula, independent of earlier evaluations, and has the name given to it")
    I = chk.I
    q, con, where = "fuzzylite::HedgeFunction", "HedgeFunction::hedge", chk.loc("HedgeFunction", "hedge", 1)
    if q not in chk.p.cls or not chk.p.is_a(q, "fuzzylite::Hedge"):
        raise AnalysisBroken("class %s is not a hedge any more" % q)
    for text, f in sorted(FORMULAS.items()):
        hold = {}
        for ca in cs[::8]:
            lo, hi = sorted((f(ca[0]), f(ca[1])))

            def sc(I):
                if "o" not in hold:
                    hold["o"] = I.make(q, text, "h")
                return I.get(hold["o"], "hedge", arg("x", ca))
            chk.interval("formula hedge", con, "%s, x in [%.9g,%.9g]" % ((text,) + ca), sc, lo - 1e-9, hi + 1e-9, where)
    texts = sorted(FORMULAS)
    for how in ("set", "copied", "assigned", "function"):
        for i, a in enumerate(texts):
            b = texts[(i + 1) % len(texts)]
            for x in (0.0, 0.25, 0.75, 1.0):
                def sc(I):
                    def at(o, text, v, what):
                        r = I.get(o, "hedge", N.const(v))
                        w = FORMULAS[text](v)
                        if r.only_nan() or r.hi < w - 1e-6 or r.lo > w + 1e-6:
                            raise Violated("%s: the hedge %s of %g is [%.9g, %.9g], specified %.9g" % (what, text, v, r.lo, r.hi, w))
                        return not r.nan and r.hi - r.lo < 1e-3
                    h = I.make(q, a, "h")
                    ok = at(h, a, x, "before") and at(h, a, x, "again")
                    if how == "set":
                        I.call(h, "setFormula", b)
                    elif how == "copied":
                        g = I.call(I.make(q, b, "g"), "clone")
                        ok = ok and at(g, b, x, "the copy") and at(h, a, x, "the source of the copy")
                        I.call(g, "setFormula", a)
                        h = g
                        return ok and at(h, a, x, "after setting the formula of a copy")
                    elif how == "assigned":
                        o = I.make(q, b, "g")
                        at(o, b, 1.0 - x, "the source")
                        I.assign(h, o)
                    else:
                        I.call(I.val(I.call(h, "function")), "load", b)
                    return ok and at(h, b, x, "after the formula is " + how) and at(h, b, 1.0 - x, "next") and at(h, b, x, "once more")
                chk.obl("formula hedge", con, "%s then %s, %s, x = %g" % (a, b, how, x), sc, where=where)
    chk.constructs.add(con)


def hedges(chk):
    chk.rule("formula", "on every cell of a cover of [0,1] the abstract result is compatible with the range of the documented transformation")
    rng = random.Random(chk.seed)
    n, m = (512, 2000) if chk.thorough else (128, 200)
    cs = cells(n) + sharp(rng, m)
    cs += [(x, x) for k in range(2, 13) for d in (10.0 ** (-k / 2.0), 0.9 * 10.0 ** (-k / 2.0)) for x in (d, 1.0 - d, 0.5 - d, 0.5 + d) if 0 <= x <= 1]
    formulas(chk, cs)
    for c, f in sorted(HE.items()):
        q = "fuzzylite::" + c
        if q not in chk.p.cls or not chk.p.is_a(q, "fuzzylite::Hedge"):
            raise AnalysisBroken("class %s is not a hedge any more" % q)
        con, where = c + "::hedge", chk.loc(c, "hedge", 1)
        hold = {}
        for ca in cs:
            lo, hi = sorted((f(ca[0]), f(ca[1])))

            def sc(I):
                if "o" not in hold:
                    hold["o"] = I.make(q)
                return I.get(hold["o"], "hedge", arg("x", ca))
            chk.interval("formula", con, "x in [%.9g,%.9g]" % ca, sc, lo, hi, where)
        chk.constructs.add(con)
    return ("Abstract interpretation of every Hedge::hedge over a cover of [0,1] by points and intervals; each abstract result is compared with the exact "
            "range of the documented transformation, which implies bounds, monotonicity at the cover's resolution and the end points.")
