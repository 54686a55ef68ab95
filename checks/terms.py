"""C09, C10, C14, C23: membership functions, NaN, Tsukamoto inverses, parameters."""
import math, random
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF

E9 = 1e-9


def ex(v):
    try:
        return math.exp(v)
    except OverflowError:
        return INF


def sig(x, i, s):
    return 1.0 / (1.0 + ex(-s * (x - i)))


def bell(x, c, w, s):
    d = abs((x - c) / w)
    if d == 0:
        return 1.0
    try:
        return 1.0 / (1.0 + d ** (2 * s))
    except OverflowError:
        return 0.0


def binary(x, s, d):
    return 1.0 if (s < d and x >= s) or (s > d and x <= s) else 0.0


def concave(x, i, e):
    if i <= e:
        return (e - i) / (2 * e - i - x) if x < e else 1.0
    return (i - e) / (i - 2 * e + x) if x > e else 1.0


def cosine(x, c, w):
    if x < c - w / 2 or x > c + w / 2:
        return 0.0
    return 0.5 * (1 + math.cos(2.0 / w * math.pi * (x - c)))


def gauss(x, m, s):
    return ex(-(x - m) ** 2 / (2 * s * s)) if abs(x) < INF else 0.0


def gprod(x, ma, sa, mb, sb):
    a = gauss(x, ma, sa) if x < ma else 1.0
    b = gauss(x, mb, sb) if x > mb else 1.0
    return a * b


def ramp(x, s, e):
    if s < e:
        return 0.0 if x <= s else 1.0 if x >= e else (x - s) / (e - s)
    return 0.0 if x >= s else 1.0 if x <= e else (s - x) / (s - e)


def sshape(x, s, e):
    if x <= s:
        return 0.0
    if x <= 0.5 * (s + e):
        return 2 * ((x - s) / (e - s)) ** 2
    return 1 - 2 * ((x - e) / (e - s)) ** 2 if x < e else 1.0


def zshape(x, s, e):
    return 1.0 - sshape(x, s, e)


def pishape(x, bl, tl, tr, br):
    return sshape(x, bl, tl) * zshape(x, tr, br)


def trap(x, a, b, c, d):
    if x < a or x > d:
        return 0.0
    if x < b:
        return 1.0 if a == -INF else min(1.0, (x - a) / (b - a))
    if x <= c:
        return 1.0
    if x < d:
        return 1.0 if d == INF else (d - x) / (d - c)
    return 1.0 if d == INF else 0.0


def tri(x, a, b, c):
    if x < a or x > c:
        return 0.0
    if x == b:
        return 1.0
    if x < b:
        return 1.0 if a == -INF else (x - a) / (b - a)
    return 1.0 if c == INF else (c - x) / (c - b)


def spike(x, c, w):
    return ex(-abs(10.0 / w * (x - c))) if abs(x) < INF else 0.0


def rect(x, s, e):
    return 1.0 if s <= x <= e else 0.0


def sdiff(x, l, r, f, ri):
    return abs(sig(x, l, r) - sig(x, ri, f))


def sprod(x, l, r, f, ri):
    return sig(x, l, r) * sig(x, ri, f)


def irange_sdiff(lo, hi, p):
    a = sorted((sig(lo, p[0], p[1]), sig(hi, p[0], p[1])))
    b = sorted((sig(lo, p[3], p[2]), sig(hi, p[3], p[2])))
    d0, d1 = a[0] - b[1], a[1] - b[0]
    m = max(abs(d0), abs(d1))
    return (0.0 if d0 <= 0 <= d1 else min(abs(d0), abs(d1))), m


def irange_sprod(lo, hi, p):
    a = sorted((sig(lo, p[0], p[1]), sig(hi, p[0], p[1])))
    b = sorted((sig(lo, p[3], p[2]), sig(hi, p[3], p[2])))
    return a[0] * b[0], a[1] * b[1]


# class -> (attributes in the documented order of the parameters text, curve, settings, extra break points)
TERMS = {
    "Bell": (["center", "width", "slope"], bell, [(0.0, 2.0, 3.0), (-3.0, 0.5, 1.0), (10.0, 4.0, 2.5)], lambda p: [p[0], p[0] - p[1], p[0] + p[1]]),
    "Binary": (["start", "direction"], binary, [(0.5, INF), (0.5, -INF), (-3.0, INF), (2.0, -INF)], lambda p: [p[0]]),
    "Concave": (["inflection", "end"], concave, [(0.25, 0.75), (0.75, 0.25), (-4.0, 2.0), (5.0, -1.0)], lambda p: [p[0], p[1]]),
    "Cosine": (["center", "width"], cosine, [(0.5, 1.0), (-2.0, 6.0), (10.0, 3.0)], lambda p: [p[0], p[0] - p[1] / 2, p[0] + p[1] / 2, p[0] - p[1] / 4, p[0] + p[1] / 4]),
    "Gaussian": (["mean", "standardDeviation"], gauss, [(0.5, 0.25), (-3.0, 2.0), (12.0, 1.0)], lambda p: [p[0], p[0] - p[1], p[0] + p[1]]),
    "GaussianProduct": (["meanA", "standardDeviationA", "meanB", "standardDeviationB"], gprod,
                        [(0.0, 0.5, 2.0, 1.5), (-4.0, 2.0, -4.0, 0.75), (1.0, 0.25, 3.0, 4.0)], lambda p: [p[0], p[2]]),
    "PiShape": (["bottomLeft", "topLeft", "topRight", "bottomRight"], pishape, [(0.0, 1.0, 2.0, 4.0), (-5.0, -4.0, -4.0, 1.0), (10.0, 16.0, 18.0, 20.0)],
                lambda p: list(p) + [(p[0] + p[1]) / 2, (p[2] + p[3]) / 2]),
    "Ramp": (["start", "end"], ramp, [(0.25, 0.75), (0.75, 0.25), (-4.0, 3.0), (5.0, -2.0)], lambda p: [p[0], p[1]]),
    "Rectangle": (["start", "end"], rect, [(0.25, 0.75), (-4.0, 3.0), (2.0, 2.0)], lambda p: [p[0], p[1]]),
    "SShape": (["start", "end"], sshape, [(0.25, 0.75), (-4.0, 3.0), (2.0, 12.0)], lambda p: [p[0], p[1], (p[0] + p[1]) / 2]),
    "Sigmoid": (["inflection", "slope"], sig, [(0.5, 10.0), (0.5, -10.0), (-3.0, 2.0), (4.0, -1.0)], lambda p: [p[0]]),
    "SigmoidDifference": (["left", "rising", "falling", "right"], sdiff, [(0.25, 20.0, 15.0, 0.75), (-2.0, 3.0, 1.0, 4.0)], lambda p: [p[0], p[3]]),
    "SigmoidProduct": (["left", "rising", "falling", "right"], sprod, [(0.25, 20.0, -15.0, 0.75), (-2.0, 3.0, -1.0, 4.0)], lambda p: [p[0], p[3]]),
    "Spike": (["center", "width"], spike, [(0.5, 1.0), (-2.0, 6.0), (10.0, 3.0)], lambda p: [p[0]]),
    "Trapezoid": (["vertexA", "vertexB", "vertexC", "vertexD"], trap,
                  [(0.0, 1.0, 2.0, 4.0), (-5.0, -4.0, -4.0, 1.0), (1.0, 1.0, 3.0, 6.0), (1.0, 3.0, 5.0, 5.0), (-INF, 0.0, 1.0, 2.0), (0.0, 1.0, 2.0, INF),
                   (-INF, 0.0, 1.0, INF)], lambda p: list(p)),
    "Triangle": (["vertexA", "vertexB", "vertexC"], tri,
                 [(0.0, 1.0, 3.0), (-5.0, -4.0, 2.0), (1.0, 1.0, 3.0), (1.0, 3.0, 3.0), (-INF, 0.5, 2.0), (0.0, 1.0, INF)], lambda p: list(p)),
    "ZShape": (["start", "end"], zshape, [(0.25, 0.75), (-4.0, 3.0), (2.0, 12.0)], lambda p: [p[0], p[1], (p[0] + p[1]) / 2]),
}
# settings in which the falling part begins before the rising one ends: the curve is the product (or difference) all the same, but it
# is not monotone between the break points, so that narrow cells alone are compared
OVERLAP = {
    "PiShape": [(0.0, 0.8, 0.2, 1.0), (-3.0, 4.0, -1.0, 2.0)], "GaussianProduct": [(2.0, 0.5, 0.0, 1.5), (3.0, 4.0, 1.0, 0.25)],
    "SigmoidDifference": [(0.75, 20.0, 15.0, 0.25), (0.0, -3.0, 1.0, 4.0)], "SigmoidProduct": [(0.75, 20.0, -15.0, 0.25), (-2.0, 3.0, 1.0, 4.0)],
}
IRANGE = {"SigmoidDifference": irange_sdiff, "SigmoidProduct": irange_sprod}
MONO = ("Concave", "Ramp", "Sigmoid", "SShape", "ZShape")


def term_classes(chk):
    out = []
    for q in chk.p.subclasses("fuzzylite::Term"):
        out.append(q.split("::")[-1])
    for c in list(TERMS) + ["Constant", "Discrete", "Linear", "Function", "Activated", "Aggregated"]:
        if c not in out:
            raise AnalysisBroken("term %s not found" % c)
    return out


def pleaf(name, v, w=E9):
    """A parameter: an opaque number within a narrow interval (identity kept), or an infinite constant."""
    if v in (INF, -INF):
        return N.const(v)
    return N.leaf(name, v, v + w * max(1.0, abs(v)))


def membership_cells(bps, k, rng):
    """Cover of the real line adapted to the break points: points at them (given by index), intervals between, far points."""
    f = sorted({b for b in bps if abs(b) < INF})
    span = max(1.0, (f[-1] - f[0]) if f else 1.0)
    lo, hi = f[0] - 2 * span, f[-1] + 2 * span
    edges = [lo] + f + [hi]
    D = 5e-6
    out = []
    for a, b in zip(edges, edges[1:]):
        if b - a < 4 * D:
            continue
        a, b = a + D, b - D
        for i in range(k):
            u, v = a + (b - a) * i / k, a + (b - a) * (i + 1) / k
            out.append((u, v))
        for _ in range(k // 2 + 1):
            u = rng.uniform(a, b)
            out.append((u, min(b, u + 1e-9 * max(1, abs(u)))))
        for e in (1e-5, 1e-4, 1e-3, 9e-3, 3e-2):        # close to the break points, at every scale
            for u in (a + e * (b - a), b - e * (b - a)):
                out.append((u, u + 1e-9 * max(1, abs(u))))
    return out, [-INF, lo - 1000 * span, hi + 1000 * span, INF]


def c09(chk):
    chk.rule("curve", "for each parameter setting (opaque values in narrow intervals) and each cell of a cover of the real line, the abstract membership is compatible with height times the documented curve")
    chk.rule("break point", "at a break point that is the parameter itself the membership is the documented one")
    chk.rule("discrete", "a discrete term interpolates its pairs linearly and is constant beyond them")
    rng = random.Random(chk.seed)
    I = chk.I
    k = 24 if chk.thorough else 6
    heights = [1.0, 0.5, 0.3, 2.0] if chk.thorough else [1.0, 0.5, 2.0]
    for c, (attrs, f, settings, bp) in sorted(TERMS.items()):
        con, where = c + "::membership", chk.loc(c, "membership", 1)
        sets = list(settings) + OVERLAP.get(c, [])
        if chk.thorough:
            for p in list(sets):
                for _ in range(3):
                    sc, sh = rng.choice([0.5, 2.0, 10.0]), rng.uniform(-20, 20)
                    loc = c not in ("Sigmoid", "SigmoidDifference", "SigmoidProduct")
                    q = []
                    for a, v in zip(attrs, p):
                        q.append(v * sc if a in ("width", "standardDeviation", "standardDeviationA", "standardDeviationB") else v if a in ("slope", "rising", "falling") else v * (sc if loc else 1) + sh)
                    sets.append(tuple(q))
        for p in sets:
            over = c in OVERLAP and (p[1] > p[2] if c == "PiShape" else p[0] > p[2] if c == "GaussianProduct" else p in OVERLAP[c])
            for h in heights:
                hold = {}
                ps = [pleaf("%s.%s" % (c, a), v) for a, v in zip(attrs, p)]
                for i in range(len(p)):         # equal parameters are the same opaque value
                    for j in range(i):
                        if p[i] == p[j]:
                            ps[i] = ps[j]
                hv = N.const(h) if h == 1.0 else N.leaf("height", h, h + 1e-10)

                def obj(I):
                    if "o" not in hold:
                        hold["o"] = I.make(c, "t", *ps, hv)
                    return hold["o"]
                cells, far = membership_cells(bp(p), k, rng)
                if over:
                    cells = [(x, x + 1e-9 * max(1, abs(x))) for lo, hi in cells for x in (lo, (lo + hi) / 2)]
                pad = 2e-7 * h * (50 if c in ("SigmoidDifference", "SigmoidProduct", "Sigmoid") else 5)
                for lo, hi in cells:
                    if c in IRANGE:
                        a, b = IRANGE[c](lo, hi, p)
                    else:
                        a, b = sorted((f(lo, *p), f(hi, *p)))
                    chk.interval("curve", con, "%s(%s) height %g, x in [%.9g,%.9g]" % (c, ", ".join(map(str, p)), h, lo, hi),
                                 lambda I: I.get(obj(I), "membership", N.leaf("x", lo, hi)), h * a - pad, h * b + pad, where)
                for x in far:
                    v = f(x, *p)
                    if v != v:
                        continue
                    chk.interval("curve", con, "%s(%s) height %g, x = %g" % (c, ", ".join(map(str, p)), h, x),
                                 lambda I: I.get(obj(I), "membership", N.const(x)), h * v - pad, h * v + pad, where)
                for i, (a, v) in enumerate(zip(attrs, p)):
                    if v in (INF, -INF) or a in ("width", "slope", "rising", "falling", "standardDeviation", "standardDeviationA", "standardDeviationB"):
                        continue
                    e = f(v, *p)
                    chk.interval("break point", con, "%s(%s) height %g, x = %s" % (c, ", ".join(map(str, p)), h, a),
                                 lambda I: I.get(obj(I), "membership", ps[i]), h * e - pad, h * e + pad, where)
    # discrete
    con, where = "Discrete::membership", chk.loc("Discrete", "membership", 1)
    tables = [[(0.0, 0.0), (1.0, 1.0), (3.0, 0.25)], [(-4.0, 0.5), (-2.0, 0.5)], [(1.0, 0.75)], [(0.0, 1.0), (1.0, 0.0), (2.0, 0.5), (4.0, 0.25), (8.0, 1.0)],
              [(0.0, 0.2), (0.5, 0.9), (0.75, 0.1), (2.0, 0.6)]]
    if chk.thorough:
        for _ in range(12):
            n = rng.randint(2, 9)
            xs = sorted(rng.uniform(-20, 20) for _ in range(n))
            if min([b - a for a, b in zip(xs, xs[1:])]) > 0.1:
                tables.append([(x, rng.random()) for x in xs])
    for t in tables:
        for h in heights:
            hold = {}

            def obj(I):
                if "o" not in hold:
                    d = I.make("Discrete", "d")
                    flat = []
                    for i, (x, y) in enumerate(t):
                        flat += [pleaf("dx%d" % i, x), N.leaf("dy%d" % i, y, y + 1e-10)]
                    I.call(d, "setXY", vec(I, [(flat[2 * i], flat[2 * i + 1]) for i in range(len(t))]))
                    I.call(d, "setHeight", N.const(h))
                    hold["o"] = d
                return hold["o"]

            def f(x):
                if x <= t[0][0]:
                    return t[0][1]
                if x >= t[-1][0]:
                    return t[-1][1]
                for (x0, y0), (x1, y1) in zip(t, t[1:]):
                    if x0 <= x <= x1:
                        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
            cells, far = membership_cells([x for x, _ in t], k, rng)
            for lo, hi in cells:
                a, b = sorted((f(lo), f(hi)))
                chk.interval("discrete", con, "%s height %g, x in [%.9g,%.9g]" % (t, h, lo, hi),
                             lambda I: I.get(obj(I), "membership", N.leaf("x", lo, hi)), h * a - 1e-6, h * b + 1e-6, where)
            for i, (x, y) in enumerate(t):
                chk.interval("discrete", con, "%s height %g, x = x[%d]" % (t, h, i),
                             lambda I: I.get(obj(I), "membership", pleaf("dx%d" % i, x)), h * y - 1e-6, h * y + 1e-6, where)
            for x in far:
                chk.interval("discrete", con, "%s height %g, x = %g" % (t, h, x),
                             lambda I: I.get(obj(I), "membership", N.const(x)), h * f(x) - 1e-6, h * f(x) + 1e-6, where)
    return ("Abstract interpretation (interval and value-number domain, trace partitioning) of every parametric membership function. Parameters are opaque numbers in "
            "narrow intervals; the real line is covered by cells adapted to the break points plus the break points themselves (as the same opaque number as the "
            "parameter), far points and infinities. Each abstract result is compared with the range of height times the documented curve, which implies the bounds.")


def vec(I, pairs):
    """A std::vector<Pair> value."""
    from flai import stdlib as S
    v = S.Vec([], "std::pair<double, double>")
    for x, y in pairs:
        v.x.append(S.Pair(I.__class__ and __import__("flai.interp", fromlist=["Cell"]).Cell(x), __import__("flai.interp", fromlist=["Cell"]).Cell(y)))
    return v


def default_term(I, c, name="t"):
    """A well-formed instance of a parametric term with opaque parameters."""
    if c in TERMS:
        attrs, f, settings, bp = TERMS[c]
        return I.make(c, name, *[pleaf("%s.%s" % (c, a), v) for a, v in zip(attrs, settings[0])])
    if c == "Discrete":
        d = I.make(c, name)
        I.call(d, "setXY", vec(I, [(N.const(0.0), N.leaf("y0", 0.2, 0.3)), (N.const(1.0), N.leaf("y1", 0.6, 0.7)), (N.const(3.0), N.const(0.0))]))
        return d
    return I.make(c, name)


def c14(chk):
    chk.rule("declares", "isMonotonic() is true exactly for the classes whose tsukamoto() does not merely raise")
    chk.rule("inverse", "membership(tsukamoto(y)) is compatible with y, for boxes of y covering (0, height)")
    rng = random.Random(chk.seed)
    I = chk.I
    for c in term_classes(chk):
        if c in ("Activated", "Aggregated"):
            continue
        res = {}

        def mono(I):
            t = default_term(I, c)
            b = I.get(t, "isMonotonic")
            b = I.truth(b)
            res.setdefault("m", set()).add(b)
            I.delete(t)
        chk.obl("declares", c + "::isMonotonic", "isMonotonic", mono, where=chk.loc(c, "isMonotonic"))

        def tsu(I):
            t = default_term(I, c)
            try:
                I.get(t, "tsukamoto", N.leaf("y", 0.2, 0.8))
                res.setdefault("t", set()).add("value")
            except CppThrow as e:
                if not (isinstance(e.obj, Obj) and I.p.is_a(e.obj.cls, "fuzzylite::Exception")):
                    raise Violated("tsukamoto raises something that is not a fuzzylite exception")
                res.setdefault("t", set()).add("throws")
        chk.obl("declares", c + "::tsukamoto", "tsukamoto", tsu, where=chk.loc(c, "tsukamoto"))
        m, t = res.get("m"), res.get("t")
        if m == {True} and t == {"throws"}:
            chk.fact("declares", c, "agree", False, "declares itself monotonic but its tsukamoto() raises", chk.loc(c, "isMonotonic"))
        elif m == {False} and t == {"value"}:
            chk.fact("declares", c, "agree", False, "offers tsukamoto() but does not declare itself monotonic", chk.loc(c, "tsukamoto"))
        elif m and t:
            chk.fact("declares", c, "agree", True if len(m) == 1 and len(t) == 1 else None)
        if m and m != {c in MONO} and len(m) == 1:
            chk.fact("declares", c, "documented set", False, "isMonotonic() is %s" % m, chk.loc(c, "isMonotonic"))
    n = 400 if chk.thorough else 60
    heights = [1.0, 0.5, 0.3, 2.0]
    for c in MONO:
        attrs, f, settings, bp = TERMS[c]
        where = chk.loc(c, "tsukamoto", 1)
        for p in settings:
            for h in heights:
                ys = [(h * (i + 0.5) / n) for i in range(n)] + [h * rng.uniform(0.01, 0.99) for _ in range(n // 2)]
                hold = {}

                def obj(I):
                    if "o" not in hold:
                        hold["o"] = I.make(c, "t", *[N.leaf("p%d" % i, v, v + 1e-13) for i, v in enumerate(p)], N.leaf("h", h, h + 1e-13))
                    return hold["o"]
                for y in ys:
                    def sc(I):
                        o = obj(I)
                        x = I.get(o, "tsukamoto", N.leaf("y", y, y + 1e-12))
                        return I.get(o, "membership", x)
                    chk.interval("inverse", c + "::tsukamoto", "%s(%s) height %g, y = %.6g" % (c, ", ".join(map(str, p)), h, y), sc, y - 1e-6, y + 1e-6, where)
    return ("Abstract interpretation of every term's isMonotonic and tsukamoto, and of the composition membership(tsukamoto(y)) of the monotonic terms in both "
            "directions for narrow boxes of y over (0, height); the composed interval must be compatible with y.")


def c10(chk):
    chk.rule("term", "membership(NaN) is NaN")
    chk.rule("fuzzy output", "aggregated output and activated term return NaN for NaN")
    chk.rule("integral", "a non-finite bound gives NaN")
    chk.rule("weighted", "an empty fuzzy output gives NaN")
    I = chk.I
    for c in term_classes(chk):
        if c in ("Constant", "Linear", "Function", "Activated", "Aggregated"):
            continue
        settings = TERMS[c][2] if c in TERMS else [None]
        for p in settings:
            for h in (None, 0.5, 0.0):
                def sc(I):
                    t = I.make(c, "t", *[pleaf("%s.%s" % (c, a), v) for a, v in zip(TERMS[c][0], p)]) if p is not None else default_term(I, c)
                    if h is not None:
                        I.call(t, "setHeight", N.const(h))
                    r = I.get(t, "membership", N.NAN)
                    I.delete(t)
                    return r
                chk.interval("term", c + "::membership", "%s height %s at NaN" % (p, h), sc, 0, 0, chk.loc(c, "membership", 1), nan=True)
    # degenerate and non-finite parameters, as many points as there may be
    for c in sorted(TERMS):
        n = len(TERMS[c][0])
        base = TERMS[c][2][0]
        odd = [tuple([v] * n) for v in (0.0, 1.0)] + [tuple(reversed(base))]
        odd += [base[:i] + (v,) + base[i + 1:] for i in range(n) for v in (INF, -INF, 0.0, float("nan"))]
        odd.append(tuple([float("nan")] * n))
        for p in odd:
            for h in (1.0, 2.0) if chk.thorough else (1.0,):
                def sc(I):
                    return I.get(I.make(c, "t", *[N.NAN if v != v else N.const(v) for v in p], N.const(h)), "membership", N.NAN)
                chk.interval("term", c + "::membership", "%s height %s at NaN" % (p, h), sc, 0, 0, chk.loc(c, "membership", 1), nan=True)
    for t in ([(0.0, 0.5)], [(1.0, 1.0), (1.0, 0.0)], [(-1.0, 0.5), (1.0, 0.5)], [(0.0, 0.0), (1.0, 1.0), (2.0, 0.0)], [(2.0, 0.0), (0.0, 1.0)],
              [(-INF, 0.5), (INF, 1.0)], [(0.0, float("nan")), (1.0, 1.0)]):
        def sc(I):
            d = I.make("Discrete", "d")
            I.call(d, "setXY", vec(I, [tuple(N.NAN if v != v else N.const(v) for v in p) for p in t]))
            return I.get(d, "membership", N.NAN)
        chk.interval("term", "Discrete::membership", "%s at NaN" % (t,), sc, 0, 0, chk.loc("Discrete", "membership", 1), nan=True)
    for formula in ("x", "x + 1", "~x", "2 * x ^ 2", "x - x", "(x + 1) / (x + 2)", "exp(x)", "abs(x)"):
        def sc(I):
            f = I.make("Function", "f", formula, None)
            I.call(f, "load", formula)
            return I.get(f, "membership", N.NAN)
        chk.interval("term", "Function::membership", "%s at NaN" % formula, sc, 0, 0, chk.loc("Function", "membership", 1), nan=True)
    for nterms in (0, 1, 2, 3):
        for agg in ("Maximum", "UnboundedSum", "AlgebraicSum", "BoundedSum"):
            def sc(I):
                g = I.make("Aggregated", "out", 0.0, 1.0, I.make(agg))
                for i in range(nterms):
                    t = I.make("Triangle", "t%d" % i, 0.0, 0.5, 1.0)
                    I.call(g, "addTerm", t, N.leaf("d%d" % i, 0.1 + 0.2 * i, 0.2 + 0.2 * i), I.make("AlgebraicProduct", heap=False))
                return I.get(g, "membership", N.NAN)
            chk.interval("fuzzy output", "Aggregated::membership", "%d activations, %s" % (nterms, agg), sc, 0, 0, chk.loc("Aggregated", "membership", 1), nan=True)
    for imp in ("Minimum", "AlgebraicProduct", "EinsteinProduct"):
        for tc in ("Triangle", "Ramp", "Gaussian", "Constant"):
            def sc(I):
                t = default_term(I, tc)
                a = I.make("Activated", t, N.leaf("d", 0.1, 0.9), I.make(imp))
                return I.get(a, "membership", N.NAN)
            chk.interval("fuzzy output", "Activated::membership", "%s %s" % (imp, tc), sc, 0, 0, chk.loc("Activated", "membership", 1), nan=True)
    integral = [q.split("::")[-1] for q in chk.p.subclasses("fuzzylite::IntegralDefuzzifier")]
    if len(integral) < 5:
        raise AnalysisBroken("integral defuzzifiers not found")
    bad = [N.NAN, N.const(INF), N.const(-INF)]
    for c in integral:
        for lo, hi in [(x, N.leaf("max", 3.0, 4.0)) for x in bad] + [(N.leaf("min", 0.0, 1.0), x) for x in bad] + [(N.const(-INF), N.const(INF)), (N.NAN, N.NAN)]:
            def sc(I):
                d = I.make(c, 7)
                t = I.make("Triangle", "t", 0.0, 1.0, 2.0)
                return I.get(d, "defuzzify", t, lo, hi)
            chk.interval("integral", c + "::defuzzify", "range %r to %r" % (lo, hi), sc, 0, 0, chk.loc(c, "defuzzify", 3), nan=True)
    # one bound that is not finite is enough, whatever the membership function makes of the abscissas
    from .fuzzy import World
    W = World(chk)
    for c in integral:
        for lo, hi in [(x, N.const(3.0)) for x in bad] + [(N.const(1.0), x) for x in bad] + [(x, y) for x in bad for y in bad]:
            for kind in ("constant", "zero", "any", "nan"):
                def sc(I):
                    t = W.term("t", {"fn": lambda I, x: N.const(0.7) if kind == "constant" else N.const(0.0) if kind == "zero" else N.NAN if kind == "nan" else N.leaf("y%d" % len(I.events), 0.0, 1.0)})
                    return I.num(I.get(I.make(c, 2), "defuzzify", t, lo, hi))
                chk.interval("integral", c + "::defuzzify", "%s membership, range %r to %r" % (kind, lo, hi), sc, 0, 0, chk.loc(c, "defuzzify", 3), nan=True)
    weighted = [q.split("::")[-1] for q in chk.p.subclasses("fuzzylite::WeightedDefuzzifier")]
    if len(weighted) < 2:
        raise AnalysisBroken("weighted defuzzifiers not found")
    for c in weighted:
        for typ in (None, "Automatic", "TakagiSugeno", "Tsukamoto"):
            for agg in (None, "Maximum"):
                def sc(I):
                    d = I.make(c) if typ is None else I.make(c, typ)
                    g = I.make("Aggregated", "out", 0.0, 1.0, I.make(agg) if agg else None)
                    return I.get(d, "defuzzify", g, N.leaf("min", 0.0, 1.0), N.leaf("max", 2.0, 3.0))
                chk.interval("weighted", c + "::defuzzify", "type %s, aggregation %s" % (typ, agg), sc, 0, 0, chk.loc(c, "defuzzify", 3), nan=True)
    return ("Abstract interpretation of every membership function, the activated and aggregated terms and the defuzzifiers on the abstract value NaN (or non-finite range, "
            "or empty fuzzy output); the result must be exactly NaN on every trace.")
