"""C17, C34, C35: formulas, numeric helpers, text helpers."""
import itertools, math, random
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool, UB, Cell
from .data import invoke
from .fuzzy import World, expect, expect_throw, FLN

OP = FLN + "Operation::"
NAN = float("nan")
EPS = 1e-6


# ------------------------------------------------------------------------------------------- reference meanings
def r_div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def r_eq(a, b, m=EPS):
    return a == b or abs(a - b) < m or (a != a and b != b)


def r_lt(a, b, m=EPS):
    return not r_eq(a, b, m) and a < b


def r_round(x):
    return math.floor(x + 0.5) if x > 0 else math.ceil(x - 0.5)


BIN = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": r_div,
    "modulo": lambda a, b: math.fmod(a, b) if b else NAN,
    "logicalAnd": lambda a, b: float(r_eq(a, 1.0) and r_eq(b, 1.0)), "logicalOr": lambda a, b: float(r_eq(a, 1.0) or r_eq(b, 1.0)),
    "gt": lambda a, b: float(r_lt(b, a)), "ge": lambda a, b: float(r_lt(b, a) or r_eq(a, b)), "eq": lambda a, b: float(r_eq(a, b)),
    "neq": lambda a, b: float(not r_eq(a, b)), "le": lambda a, b: float(r_lt(a, b) or r_eq(a, b)), "lt": lambda a, b: float(r_lt(a, b)),
    "min": lambda a, b: NAN if a != a or b != b else min(a, b), "max": lambda a, b: NAN if a != a or b != b else max(a, b),
}
UN = {"logicalNot": lambda a: 0.0 if r_eq(a, 1.0) else 1.0, "negate": lambda a: -a, "round": r_round}
FLOATS = (0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -2.5, 3.0, 7.25, -7.75, 1.49, 1.51, -1.49, -1.51, 100.0, 1e-9, 1.0 + 5e-7, 1.0 - 5e-7, 1.0 + 2e-6, 0.25)


def close(got, want, tol=1e-9):
    """Refuted only if the abstract result excludes the specified value."""
    if isinstance(got, bool):
        got = N.const(1.0 if got else 0.0)
    if isinstance(got, int):
        got = N.const(float(got))
    if want != want:
        return True if got.only_nan() else None if got.nan else False
    if got.only_nan():
        return False
    if math.isinf(want):
        return (True if got.is_point() and got.lo == want else None) if got.lo <= want <= got.hi else False
    t = tol * max(1.0, abs(want))
    if got.hi < want - t or got.lo > want + t:
        return False
    return True if not got.nan and got.lo >= want - t and got.hi <= want + t else None


def demand(got, want, msg, tol=1e-9):
    r = close(got, want, tol)
    if r is False:
        raise Violated("%s is %r, specified %r" % (msg, got, want))
    return r


def where_op(chk, name):
    for f in chk.p.byname.get(OP + name, []):
        return "%s:%d" % (f["file"], f["l"])
    return "?"


# ------------------------------------------------------------------------------------------- C34
def c34(chk):
    chk.rule("trichotomy", "for all a, b: exactly one of less, equal, greater, unless exactly one of them is NaN (then none); <= and >= are the unions with equal")
    chk.rule("tolerance", "equal means: the same, closer than the tolerance, or both NaN")
    chk.rule("helpers", "minimum, maximum, bound, scale, round, logical and arithmetic helpers compute what they name")
    chk.rule("statistics", "sum, mean, variance, standard deviation and midpoints follow their formulas")
    chk.rule("increment", "increment enumerates every combination of digits exactly once, last digit fastest, and reports the wrap-around")
    I = chk.I
    rng = random.Random(chk.seed)
    # --- relations on abstract operands
    classes = {"-inf": Num(-INF), "low": (-100.0, -50.0), "mid": (-1.0, 1.0), "high": (50.0, 100.0), "+inf": Num(INF), "nan": N.NAN}
    REL = ("isLt", "isLE", "isEq", "isGt", "isGE", "isClose")

    def rels(I, a, b, *m):
        return {n: I.truth(I.val(I.scall(OP + n, a, b, *m))) for n in REL}

    def consistent(r, an, bn, d=""):
        n = r["isLt"] + r["isEq"] + r["isGt"]
        one = an != bn
        if one and n:
            raise Violated("%s with exactly one NaN: %s" % (d, r))
        if not one and n != 1:
            raise Violated("%s: less, equal, greater are %s, %s, %s" % (d, r["isLt"], r["isEq"], r["isGt"]))
        if r["isLE"] != (r["isLt"] or r["isEq"]) or r["isGE"] != (r["isGt"] or r["isEq"]):
            raise Violated("%s: <= or >= is not the union with equality: %s" % (d, r))
        if r["isClose"] != r["isEq"]:
            raise Violated("%s: isClose differs from isEq" % d)
    for (ca, va), (cb, vb) in itertools.product(classes.items(), repeat=2):
        def sc(I):
            a = va if va.__class__ is Num else N.leaf("a", *va)
            b = vb if vb.__class__ is Num else N.leaf("b", *vb)
            r = rels(I, a, b)
            consistent(r, ca == "nan", cb == "nan", "a in %s, b in %s" % (ca, cb))
            order = ["-inf", "low", "mid", "high", "+inf"]
            if ca in order and cb in order and ca != cb:
                if r["isLt"] != (order.index(ca) < order.index(cb)) or r["isEq"]:
                    raise Violated("a in %s, b in %s: %s" % (ca, cb, r))
            if ca == cb and ca in ("-inf", "+inf", "nan") and not r["isEq"]:
                raise Violated("%s is not equal to itself" % ca)
        chk.obl("trichotomy", "Operation::isLt..isGE", "%s, %s" % (ca, cb), sc, where=where_op(chk, "isLt"), limit=256)
    for c, v in classes.items():
        def sc(I):
            a = v if v.__class__ is Num else N.leaf("a", *v)
            r = rels(I, a, a)
            if not r["isEq"] or r["isLt"] or r["isGt"] or not r["isLE"] or not r["isGE"]:
                raise Violated("a value compared with itself: %s" % r)
        chk.obl("trichotomy", "Operation::isLt..isGE", "%s with itself" % c, sc, where=where_op(chk, "isEq"), limit=256)
    for tol in (None, 1e-3, 0.5, 1e-12, 0.0):
        t = EPS if tol is None else tol
        for base in (0.0, 1.0, -3.5, 1000.0):
            for d in (0.0, t * 0.5, t * 0.99, t * 1.5, t * 4, 1.0, 7.0):
                for sgn in (1, -1):
                    def sc(I):
                        a, b = base, base + sgn * d
                        m = () if tol is None else (tol,)
                        r = rels(I, a, b, *m)
                        want = {"isEq": r_eq(a, b, t), "isLt": r_lt(a, b, t), "isGt": r_lt(b, a, t)}
                        for k, w in want.items():
                            if r[k] != w:
                                raise Violated("%s(%r, %r, tolerance %r) is %s" % (k, a, b, t, r[k]))
                        consistent(r, False, False, "a=%r b=%r tolerance %r" % (a, b, t))
                    chk.obl("tolerance", "Operation::isLt..isGE", "tolerance %s base %r difference %r" % (tol, base, sgn * d), sc, where=where_op(chk, "isEq"))
    # --- scalar helpers: constants, and boxes away from the tolerance lines
    for n, f in BIN.items():
        pts = list(itertools.product(FLOATS, repeat=2)) if chk.thorough else [(rng.choice(FLOATS), rng.choice(FLOATS)) for _ in range(60)] + [(1.0, 1.0), (1.0, 0.0), (0.0, 1.0), (0.0, 0.0), (2.0, 3.0), (3.0, 2.0), (1.0, 1.0 + 5e-7), (1.0, 1.0 + 2e-6), (-7.5, 2.0)]
        pts += [(a, b) for a in (NAN, INF, -INF, 2.0) for b in (NAN, INF, -INF, 2.0) if n in ("min", "max", "eq", "neq", "lt", "le", "gt", "ge", "logicalAnd", "logicalOr")]

        def sc(I):
            for a, b in pts:
                demand(I.val(I.scall(OP + n, N.const(a), N.const(b))), f(a, b), "%s(%r, %r)" % (n, a, b))
        chk.obl("helpers", "Operation::" + n, "constants", sc, where=where_op(chk, n))
        for k in range(40 if chk.thorough else 12):
            a, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
            if n == "modulo":
                a, b = abs(a), abs(b) + 0.5

            def sc(I):
                w = 1e-3
                A, B = N.leaf("a", a, a + w), N.leaf("b", b, b + w)
                g = I.val(I.scall(OP + n, A, B))
                if g.__class__ is bool:
                    g = N.const(float(g))
                want = [f(x, y) for x in (a, a + w) for y in (b, b + w)]
                if n == "modulo" and math.floor(a / (b + w)) != math.floor((a + w) / b):
                    return None
                lo, hi = min(want), max(want)
                if n in ("divide",) and b < 0 < b + w:
                    return None
                if g.only_nan() or g.hi < lo - 1e-9 or g.lo > hi + 1e-9:
                    raise Violated("%s on [%r, %r] x [%r, %r] is %r, specified [%r, %r]" % (n, a, a + w, b, b + w, g, lo, hi))
            chk.obl("helpers", "Operation::" + n, "box %d" % k, sc, where=where_op(chk, n))
    for n, f in UN.items():
        def sc(I):
            for a in FLOATS + (4.999999, -4.5, 1e6 + 0.5):
                demand(I.val(I.scall(OP + n, N.const(a))), f(a), "%s(%r)" % (n, a))
        chk.obl("helpers", "Operation::" + n, "constants", sc, where=where_op(chk, n))
    # bound / in / scale / isInf / isNaN / isFinite
    for x, lo, hi in ((0.5, 0.0, 1.0), (-2.0, 0.0, 1.0), (7.0, 0.0, 1.0), (0.0, 0.0, 1.0), (1.0, 0.0, 1.0), (INF, 0.0, 1.0), (-INF, 0.0, 1.0), (3.0, -INF, INF), (-4.0, -3.0, -2.0), (5.0, 2.0, 2.0)):
        def sc(I):
            for w in (0.0, 1e-3):
                X = N.const(x) if w == 0 or math.isinf(x) else N.leaf("x", x, x + w)
                got = I.num(I.val(I.scall(OP + "bound", X, N.const(lo), N.const(hi))))
                ref = sorted((max(lo, min(hi, v)) for v in (x, x + w)))
                if got.only_nan() or got.hi < ref[0] - 1e-12 or got.lo > ref[1] + 1e-12:
                    raise Violated("bound(%r, %r, %r) is %r" % (X, lo, hi, got))
        chk.obl("helpers", "Operation::bound", "%r in [%r, %r]" % (x, lo, hi), sc, where=where_op(chk, "bound"))
    if chk.p.byname.get(OP + "in"):
        for x, geq, leq in itertools.product((-1.0, 0.0, 5e-7, 0.5, 1.0 - 5e-7, 1.0, 2.0), (True, False), (True, False)):
            def sc(I):
                got = I.truth(I.val(I.scall(OP + "in", N.const(x), N.const(0.0), N.const(1.0), geq, leq)))
                want = (r_lt(0.0, x) or (geq and r_eq(x, 0.0))) and (r_lt(x, 1.0) or (leq and r_eq(x, 1.0)))
                if got != want:
                    raise Violated("in(%r, 0, 1, %s, %s) is %s" % (x, geq, leq, got))
            chk.obl("helpers", "Operation::in", "%r %s %s" % (x, geq, leq), sc, where=where_op(chk, "in"))
    for n, f in (("isInf", math.isinf), ("isNaN", math.isnan), ("isFinite", math.isfinite)):
        for x in (0.0, -3.5, 1e308, INF, -INF, NAN):
            def sc(I):
                f0 = [q for q in I.p.byname[OP + n] if q["params"][0]["t"] == "double"]
                got = I.truth(I.val(I.call_uid(f0[0]["u"], None, [N.const(x)])))
                if got != f(x):
                    raise Violated("%s(%r) is %s" % (n, x, got))
            chk.obl("helpers", "Operation::" + n, repr(x), sc, where=where_op(chk, n))
    for k in range(60 if chk.thorough else 20):
        fa, fb, ta, tb = [rng.uniform(-10, 10) for _ in range(4)]
        fb = fa + abs(fb) + 0.5
        if k % 2:
            ta, tb = min(ta, tb), max(ta, tb)

        def sc(I):
            a = [N.const(v) for v in (fa, fb, ta, tb)]
            demand(I.val(I.scall(OP + "scale", N.const(fa), *a)), ta, "scale of the source minimum", 1e-7)
            demand(I.val(I.scall(OP + "scale", N.const(fb), *a)), tb, "scale of the source maximum", 1e-7)
            m = fa + 0.25 * (fb - fa)
            demand(I.val(I.scall(OP + "scale", N.const(m), *a)), ta + 0.25 * (tb - ta), "scale of the quarter point", 1e-7)
            out = fb + 3.0
            demand(I.val(I.scall(OP + "scale", N.const(out), *a)), ta + (tb - ta) * (out - fa) / (fb - fa), "scale beyond the source range", 1e-7)
            if ta <= tb:
                demand(I.val(I.scall(OP + "scale", N.const(out), *a, True)), tb, "bounded scale beyond the maximum", 1e-7)
                demand(I.val(I.scall(OP + "scale", N.const(fa - 2.0), *a, True)), ta, "bounded scale below the minimum", 1e-7)
            demand(I.val(I.scall(OP + "scale", N.const(out), *a, False)), ta + (tb - ta) * (out - fa) / (fb - fa), "unbounded scale", 1e-7)
        chk.obl("helpers", "Operation::scale", "case %d" % k, sc, where=where_op(chk, "scale"))
    # statistics
    for n in range(0, 7):
        xs = [rng.uniform(-5, 5) for _ in range(n)]

        def sc(I):
            v = I.std.Vec([I.std.as_slot(I, N.leaf("v%d" % i, x, x + 1e-9)) for i, x in enumerate(xs)])
            s, m = sum(xs), (sum(xs) / n if n else NAN)
            demand(I.val(I.scall(OP + "sum", v)), s, "sum of %d values" % n, 1e-6)
            if n:
                demand(I.val(I.scall(OP + "mean", v)), m, "mean of %d values" % n, 1e-6)
            var = NAN if n == 0 else 0.0 if n == 1 else sum((x - m) ** 2 for x in xs) / (n - 1)
            if n:
                demand(I.val(I.scall(OP + "variance", v, N.const(m))), var, "variance of %d values" % n, 1e-5)
                demand(I.val(I.scall(OP + "standardDeviation", v)), math.sqrt(var), "standard deviation of %d values" % n, 1e-4)
            demand(I.val(I.scall(OP + "standardDeviation", v, N.const(m if n else 0.0))), math.sqrt(var) if n else NAN, "standard deviation of %d values" % n, 1e-4)
        chk.obl("statistics", "Operation::mean..standardDeviation", "%d values" % n, sc, where=where_op(chk, "variance"))
    for lo, hi, n in ((0.0, 1.0, 1), (0.0, 1.0, 4), (-2.0, 3.0, 7), (5.0, 5.0, 3), (0.0, 1.0, 0)):
        def sc(I):
            r = [I.num(I.val(x)) for x in I.val(I.scall(OP + "midpoints", N.const(lo), N.const(hi), n)).x]
            if len(r) != n:
                raise Violated("%d midpoints instead of %d" % (len(r), n))
            for i, x in enumerate(r):
                demand(x, lo + (i + 0.5) * (hi - lo) / n, "midpoint %d of %d in [%r, %r]" % (i, n, lo, hi))
        chk.obl("statistics", "Operation::midpoints", "%d in [%r, %r]" % (n, lo, hi), sc, where=where_op(chk, "midpoints"))
    # increment
    for dims in ((1,), (2,), (3, 2), (2, 1, 3), (1, 1), (2, 2, 2), (4, 3), ()):
        for base in (0, -1):
            def sc(I):
                C = lambda l: I.std.Vec([Cell(v) for v in l])
                lo = [base] * len(dims)
                hi = [base + d - 1 for d in dims]
                x, mn, mx = C(lo), C(lo), C(hi)
                want = list(itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]))
                for i, w in enumerate(want):
                    cur = tuple(I.val(c) for c in x.x)
                    if cur != w:
                        raise Violated("step %d is %s, specified %s" % (i, cur, w))
                    more = I.truth(I.val(I.scall(OP + "increment", x, mn, mx)))
                    if more != (i + 1 < len(want)):
                        raise Violated("increment after %s returns %s" % (w, more))
                if dims and tuple(I.val(c) for c in x.x) != want[0]:
                    raise Violated("after the last combination the digits are %s" % (tuple(I.val(c) for c in x.x),))
            chk.obl("increment", "Operation::increment", "digits %s from %d" % (dims, base), sc, where=where_op(chk, "increment"))
    for lo, hi in (((0, 2), (1, 4)), ((2, 0), (4, 1)), ((3, -1, 0), (4, 1, 2)), ((1, 2, 3), (2, 3, 4)), ((-2, 5), (0, 5)), ((7,), (9,)), ((0, 0, 4), (0, 2, 5)), ((4, 0, 0), (5, 1, 0))):
        def sc(I, lo=lo, hi=hi):
            C = lambda l: I.std.Vec([Cell(v) for v in l])
            x, mn, mx = C(lo), C(lo), C(hi)
            want = list(itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]))
            for i, w in enumerate(want):
                cur = tuple(I.val(c) for c in x.x)
                if cur != w:
                    raise Violated("step %d is %s, specified %s" % (i, cur, w))
                more = I.truth(I.val(I.scall(OP + "increment", x, mn, mx)))
                if more != (i + 1 < len(want)):
                    raise Violated("increment after %s returns %s" % (w, more))
            if tuple(I.val(c) for c in x.x) != lo:
                raise Violated("after the last combination the digits are %s" % (tuple(I.val(c) for c in x.x),))
            if tuple(I.val(c) for c in mn.x) != lo or tuple(I.val(c) for c in mx.x) != hi:
                raise Violated("increment changes the limits")
        chk.obl("increment", "Operation::increment", "from %s to %s" % (lo, hi), sc, where=where_op(chk, "increment"))
    return ("Abstract interpretation of the comparison functions on interval classes of operands (infinities, NaN, disjoint, overlapping and identical ranges) and around the tolerance, "
            "and of the numeric helpers on constants and boxes against the meaning of their names.")


# ------------------------------------------------------------------------------------------- C35
A, SP, OT = (lambda i=0: chr(0xF000 + i)), (lambda i=0: chr(0xF100 + i)), (lambda i=0: chr(0xF200 + i))


def texts(symbols, n):
    for k in range(n + 1):
        yield from itertools.product(symbols, repeat=k)


def raw(I, v):
    """A text, the numbers in it as they are written."""
    v = I.val(v)
    v = v.v if hasattr(v, "v") else v
    return "".join("%.3f" % I.atom_rev[c].lo if "\ue000" <= c <= "\uefff" and c in I.atom_rev else c for c in v)


def c35(chk):
    chk.rule("format", "characters that do not satisfy the predicate are replaced, the others kept, in order")
    chk.rule("trim", "exactly the surrounding white space is removed, for any text")
    chk.rule("names", "valid names keep exactly the letters, digits, underscores and dots, and are never empty")
    chk.rule("split", "splitting gives the parts between delimiters; joining with the delimiter restores the text; empty parts are dropped only on request")
    chk.rule("replace", "all (or the first) occurrences are replaced and everything else is kept")
    chk.rule("numbers", "a text is a number exactly when all of it is one; otherwise exception, or alternative and false")
    chk.rule("str", "numbers print as number, nan, inf or -inf, and vectors print all elements separated")
    I = chk.I
    S = lambda f, *a: I.val(I.scall(OP + f, *a))
    n = 6 if chk.thorough else 5
    spaces = lambda c: c in " \t\n\r\v\f" or 0xF100 <= ord(c) <= 0xF1FF

    def strip(t):
        i, j = 0, len(t)
        while i < j and spaces(t[i]):
            i += 1
        while j > i and spaces(t[j - 1]):
            j -= 1
        return t[i:j]
    for k in range(n + 1):
        def sc(I):
            for t in itertools.product((A(), SP(), OT()), repeat=k):
                t = "".join(t)
                g = S("trim", t)
                if g != strip(t):
                    raise Violated("trim(%s) is %s" % (show(t), show(g)))
        chk.obl("trim", "Operation::trim", "all shapes of length %d over word, space and other characters" % k, sc, where=where_op(chk, "trim"))
    for t in (" \t\n\r\v\f", "\tab c\n", "\xe9 x\xa0", "\xff", " \x80 ", "  a", "a  "):
        def sc(I):
            g = S("trim", t)
            if g != t.strip(" \t\n\r\v\f"):
                raise Violated("trim(%r) is %r" % (t, g))
        chk.obl("trim", "Operation::trim", repr(t), sc, where=where_op(chk, "trim"))
    for k in range(n):
        def sc(I):
            for t in itertools.product((A(), SP(), OT(), "_", ".", "\xe9"), repeat=k):
                t = "".join(t)
                g = S("validName", t)
                w = "".join(c for c in t if c in "_." or 0xF000 <= ord(c) <= 0xF0FF)
                if not g:
                    raise Violated("validName(%s) is empty" % show(t))
                if g != w and w:
                    raise Violated("validName(%s) is %s" % (show(t), show(g)))
                if any(not (c in "_." or 0xF000 <= ord(c) <= 0xF0FF) for c in g):
                    raise Violated("validName(%s) is %s" % (show(t), show(g)))
        chk.obl("names", "Operation::validName", "all shapes of length %d" % k, sc, where=where_op(chk, "validName"))
    # split / join / replace: the text is a sequence of arbitrary non-delimiter characters and delimiters
    for d in (",", "::", " ", "aa"):
        for k in range(n + 1):
            def sc(I):
                for t in itertools.product((A(), A(1), d), repeat=k):
                    t = "".join(t)
                    parts = t.split(d)
                    for ign in (True, False):
                        g = [I.val(x) for x in S("split", t, d, ign).x]
                        w = [p for p in parts if p or not ign] if t else [""]
                        if g != w:
                            raise Violated("split(%s, %r, %s) is %s, specified %s" % (show(t), d, ign, show(g), show(w)))
                    r = S("join", I.std.Vec([I.std.SStr(p) for p in parts]), d)
                    if r != t:
                        raise Violated("join of the parts of %s with %r is %s" % (show(t), d, show(r)))
            chk.obl("split", "Operation::split", "delimiter %r, %d symbols" % (d, k), sc, where=where_op(chk, "split"))

            def sc(I):
                for t in itertools.product((A(), A(1), d), repeat=k):
                    t = "".join(t)
                    for rep in ("", "x", d, d + "y", " %s " % d):
                        g, w = S("replaceAll", t, d, rep), t.replace(d, rep)
                        if g != w:
                            raise Violated("replaceAll(%s, %r, %r) is %s, specified %s" % (show(t), d, rep, show(g), show(w)))
                        g, w = S("replaceFirst", t, d, rep), t.replace(d, rep, 1)
                        if g != w:
                            raise Violated("replaceFirst(%s, %r, %r) is %s, specified %s" % (show(t), d, rep, show(g), show(w)))
                        if S("findReplace", t, d, rep, True) != t.replace(d, rep) or S("findReplace", t, d, rep, False) != t.replace(d, rep, 1):
                            raise Violated("findReplace(%s, %r, %r) loses text" % (show(t), d, rep))
            chk.obl("replace", "Operation::findReplace", "pattern %r, %d symbols" % (d, k), sc, where=where_op(chk, "findReplace"))
    for t in ("", A(), A() + A(1)):
        def sc(I):
            old, I.budget = I.budget, 20000
            try:
                g = S("replaceAll", t, "", "x")
                h = S("replaceFirst", t, "", "x")
            except Undecided as e:
                if "budget" in str(e) or "step" in str(e):
                    raise Violated("replacing an empty pattern in %s does not terminate" % show(t))
                raise
            finally:
                I.budget = old
            for x in (g, h):
                if any(c not in x for c in t):
                    raise Violated("replacing an empty pattern in %s loses text: %s" % (show(t), show(x)))
        chk.obl("replace", "Operation::findReplace", "empty pattern in a text of %d characters" % len(t), sc, where=where_op(chk, "findReplace"))
        def sc(I):
            g = [I.val(x) for x in S("split", t, "", True).x]
            if "".join(g) != t:
                raise Violated("split(%s, \"\") is %s" % (show(t), show(g)))
        chk.obl("split", "Operation::split", "empty delimiter, text of %d characters" % len(t), sc, where=where_op(chk, "split"))
    # numbers
    good = {"1": 1.0, "-2.5": -2.5, "+3": 3.0, ".5": 0.5, "4.": 4.0, "1e3": 1000.0, "1.5E-2": 0.015, "0": 0.0, "-0.25": -0.25, "0007": 7.0,
            "nan": NAN, "inf": INF, "-inf": -INF}
    bad = ["", " ", "abc", "1a", "1 2", "1 ", "1,5", "--1", "1e", "e5", "+", "-", ".", "nano", "in", "- 1", "1.2.3", "NaN ", "inf inf", "0x", "1e5x", "-+1", "nan1", "\xe9", A(), "1" + A()]
    x = N.leaf("number", -7.0, 9.0)
    for t in list(good) + bad + ["<opaque>", "<opaque> <opaque>", "<opaque>!"]:
        def sc(I):
            ok, want, txt = t in good, good.get(t), t
            if t.startswith("<opaque>"):
                f = [q for q in I.p.byname[OP + "str"] if q["params"][0]["t"] == "double"][0]
                one = I.val(I.call_uid(f["u"], None, [x] + I.default_args(f["u"], 1)))
                if len(one) != 1:
                    return None       # prints as zero
                ok, txt = t == "<opaque>", t.replace("<opaque>", one)
                want = x

            def right(g, d):
                if want.__class__ is Num:
                    if same(g, want) is not True:
                        raise Violated("%s of a printed number is %r instead of it" % (d, g))
                else:
                    demand(g, want, "%s(%r)" % (d, t), 1e-15)
            if ok:
                right(I.num(S("toScalar", txt)), "toScalar")
            else:
                expect_throw(I, lambda: S("toScalar", txt), "toScalar(%s)" % show(txt))
            for alt in (-17.0, NAN):
                flag = Cell(None)
                g = I.num(S("toScalar", txt, N.const(alt), flag))
                if I.truth(I.val(flag)) != ok:
                    raise Violated("toScalar(%s, alternative, ok) sets ok to %s" % (show(txt), I.val(flag)))
                if ok:
                    right(g, "toScalar with alternative")
                else:
                    demand(g, alt, "toScalar(%s, %r)" % (show(txt), alt))
                g = I.num(S("toScalar", txt, N.const(alt)))
                if ok:
                    right(g, "toScalar with alternative")
                else:
                    demand(g, alt, "toScalar(%s, %r)" % (show(txt), alt))
            if I.truth(S("isNumeric", txt)) != ok:
                raise Violated("isNumeric(%s) is %s" % (show(txt), not ok))
        chk.obl("numbers", "Operation::toScalar", repr(t), sc, where=where_op(chk, "toScalar"))
    for l in (["1", "2", "-3.5"], ["1", "x", "3"], [], ["nan", "inf", "-inf"], ["x"], ["7"], ["a", "1"], ["1", "b"], ["a", "b", "2", "c"]):
        def sc(I):
            t = "  ".join(l) + " "
            ok = all(v in good or v.replace("-", "").replace(".", "").isdigit() for v in l)
            ref = lambda v: good.get(v, None) if v in good else float(v) if v.replace("-", "").replace(".", "").isdigit() else None
            if ok:
                g = [I.num(I.val(v)) for v in S("toScalars", t).x]
                if len(g) != len(l):
                    raise Violated("toScalars(%r) has %d values" % (t, len(g)))
                for a, b in zip(g, l):
                    demand(a, ref(b), "toScalars(%r)" % t)
            else:
                expect_throw(I, lambda: S("toScalars", t), "toScalars(%r)" % t)
            flag = Cell(None)
            g = [I.num(I.val(v)) for v in S("toScalars", t, N.const(-5.0), flag).x]
            if len(g) != len(l) or I.truth(I.val(flag)) != ok:
                raise Violated("toScalars(%r, alternative) gives %s, ok=%s" % (t, show(g), I.val(flag)))
            for a, b in zip(g, l):
                demand(a, -5.0 if ref(b) is None else ref(b), "toScalars(%r, alternative)" % t)
        chk.obl("numbers", "Operation::toScalars", " ".join(l), sc, where=where_op(chk, "toScalars"))
    # str / join
    fd = [q for q in I.p.byname[OP + "str"] if q["params"][0]["t"] == "double"][0]
    for v, want in ((NAN, "nan"), (INF, "inf"), (-INF, "-inf"), (1.0, "1.000"), (-2.5, "-2.500"), (0.0, "0.000"), (1234.125, "1234.125")):
        def sc(I):
            g = I.val(I.call_uid(fd["u"], None, [N.const(v)] + I.default_args(fd["u"], 1)))
            if g != want and not (len(g) == 1 and near(I.atom_rev.get(g), N.const(v)) is not False):
                raise Violated("str(%r) is %s" % (v, show(g)))
        chk.obl("str", "Operation::str", repr(v), sc, where=where_op(chk, "str"))
    for k in range(5):
        def sc(I):
            xs = [N.leaf("x%d" % i, 1.0 + i, 1.1 + i) for i in range(k)]
            f = [q for q in I.p.byname[OP + "join"] if "vector<double" in q["params"][0]["t"]][0]
            g = I.val(I.call_uid(f["u"], None, [I.std.Vec([Cell(v) for v in xs]), I.std.SStr(" ; ")]))
            parts = g.split(" ; ") if g else []
            if len(parts) != k:
                raise Violated("join of %d numbers has %d parts: %s" % (k, len(parts), show(g)))
            for p, v in zip(parts, xs):
                if len(p) != 1 or same(I.atom_rev.get(p), v) is not True:
                    return False
        chk.obl("str", "Operation::join", "%d numbers" % k, sc, where=where_op(chk, "join"))

    # a character that satisfies the predicate stays, any other becomes the replacement
    for t in ("", "a", "-", "a-b", "--", "a b.c_d", "-a-", "\t9z!", "aaa", "###"):
        for rep in ("", "_", "ab", "-"):
            for what, pred in (("letters", lambda ch: chr(ch).isalpha()), ("none", lambda ch: False), ("all", lambda ch: True), ("digits", lambda ch: chr(ch).isdigit())):
                def sc(I, t=t, rep=rep, pred=pred):
                    r = raw(I, I.scall(OP + "format", I.std.SStr(t), lambda II, this, a: int(pred(II.val(a[0]))), I.std.SStr(rep)))
                    want = "".join(ch if pred(ord(ch)) else rep for ch in t)
                    if r != want:
                        raise Violated("format(%r, %s, %r) is %r, specified %r" % (t, what, rep, r, want))
                chk.obl("format", "Operation::format", "%r keeping %s, otherwise %r" % (t, what, rep), sc, where=where_op(chk, "format"))
    for kind, make in (("const char", lambda I, k: I.std.SStr("w%d" % k)), ("float", lambda I, k: N.const(k + 0.5)), ("double", lambda I, k: N.const(k - 0.25)), ("int", lambda I, k: k * 3 - 1)):
        fs = [f for q in I.p.byname.get(OP + "join", ()) for f in [I.p.fn[q] if q.__class__ is str else q] if len(f["params"]) == 3 and f["params"][2]["t"].replace(" *", "").strip() == kind]
        for f in fs[:1]:
            for k in range(1, 5):
                for sep in (",", "", " and "):
                    def sc(I, f=f, k=k, sep=sep, make=make, kind=kind):
                        xs = [make(I, i) for i in range(k)]
                        r = raw(I, I.call_uid(f["u"], None, [k, I.std.SStr(sep)] + xs))
                        want = sep.join("w%d" % i if kind == "const char" else "%.3f" % (i + 0.5) if kind == "float" else "%.3f" % (i - 0.25) if kind == "double" else "%d" % (i * 3 - 1) for i in range(k))
                        if r != want:
                            raise Violated("joining %d values with %r is %r, specified %r" % (k, sep, r, want))
                    chk.obl("str", "Operation::join", "%d values of type %s, separator %r" % (k, kind, sep), sc, where=where_op(chk, "join"))
    return ("Abstract interpretation of the text helpers on all text shapes up to a length over symbolic characters (an arbitrary letter or digit, an arbitrary white space, an arbitrary other "
            "character, delimiters), on opaque numbers, and on malformed numbers; results must be the specified ones and no construct may have undefined behaviour.")


# ------------------------------------------------------------------------------------------- C17
FUN = {
    "abs": (1, abs), "fabs": (1, abs), "ceil": (1, math.ceil), "floor": (1, math.floor), "round": (1, r_round),
    "acos": (1, math.acos), "asin": (1, math.asin), "atan": (1, math.atan), "cos": (1, math.cos), "sin": (1, math.sin), "tan": (1, math.tan),
    "cosh": (1, math.cosh), "sinh": (1, math.sinh), "tanh": (1, math.tanh), "exp": (1, math.exp), "log": (1, math.log), "log10": (1, math.log10),
    "sqrt": (1, math.sqrt), "acosh": (1, math.acosh), "asinh": (1, math.asinh), "atanh": (1, math.atanh), "log1p": (1, math.log1p),
    "atan2": (2, math.atan2), "fmod": (2, math.fmod), "pow": (2, math.pow), "eq": (2, BIN["eq"]), "neq": (2, BIN["neq"]), "gt": (2, BIN["gt"]), "ge": (2, BIN["ge"]),
    "lt": (2, BIN["lt"]), "le": (2, BIN["le"]), "max": (2, max), "min": (2, min),
}
OPS = {  # arity, precedence rank (higher binds tighter), right associative, meaning
    "!": (1, 7, True, UN["logicalNot"]), "~": (1, 7, True, UN["negate"]), "^": (2, 6, True, math.pow), "*": (2, 5, False, BIN["multiply"]), "/": (2, 5, False, r_div),
    "%": (2, 5, False, math.fmod), "+": (2, 4, False, BIN["add"]), "-": (2, 4, False, BIN["subtract"]), "and": (2, 3, False, BIN["logicalAnd"]), "or": (2, 2, False, BIN["logicalOr"]),
}
DOM = {"acos": (-0.9, 0.9), "asin": (-0.9, 0.9), "atanh": (-0.9, 0.9), "acosh": (1.1, 4.0), "log": (0.1, 5.0), "log10": (0.1, 5.0), "sqrt": (0.1, 5.0), "log1p": (-0.5, 3.0),
       "tan": (-1.2, 1.2), "pow": (0.3, 3.0), "fmod": (0.3, 9.0), "^": (0.3, 3.0), "%": (0.3, 9.0)}


def render(t, prec=0, full=False):
    """Infix text with the fewest parentheses the documented grammar needs (or all of them)."""
    if isinstance(t, str):
        return t
    f, args = t[0], t[1:]
    if f in FUN:
        return "%s(%s)" % (f, ", ".join(render(a, 0, full) for a in args))
    ar, p, right, _ = OPS[f]
    if ar == 1:
        s = "%s %s" % (f, render(args[0], p, full))
    else:
        s = "%s %s %s" % (render(args[0], p + (1 if right else 0), full), f, render(args[1], p + (0 if right else 1), full))
    return "(%s)" % s if p < prec or full else s


def value(t, env):
    if isinstance(t, str):
        return env[t] if t in env else float(t)
    f, a = t[0], [value(x, env) for x in t[1:]]
    return float((FUN[f][1] if f in FUN else OPS[f][3])(*a))


def c17(chk):
    chk.rule("operations", "every registered operator and function computes the operation it names, with its arity")
    chk.rule("precedence", "a formula evaluates to the conventional reading of its text under the documented precedence and associativity")
    chk.rule("variables", "variables take the values of the engine's variables by name and x the argument")
    chk.rule("written", "the tree of a formula is written in prefix, infix and postfix order with every part, and counts its operators and functions")
    chk.rule("malformed", "unknown variables, wrong arity and mismatched parentheses raise a fuzzylite exception")
    I, W = chk.I, World(chk)
    rng = random.Random(chk.seed)
    wf = chk.loc("FunctionFactory", "registerFunctions")
    wp = chk.loc("Function", "toPostfix")

    def names(I):
        f = I.make("FunctionFactory")
        ops = [I.val(x) for x in I.get(f, "availableOperators").x]
        fns = [I.val(x) for x in I.get(f, "availableFunctions").x]
        return ops, fns

    def registered(I):
        ops, fns = names(I)
        miss = [n for n in OPS if n not in ops] + [n for n in FUN if n not in fns]
        if miss:
            raise Violated("not registered: %s" % miss)
        bad = [n for n in fns if n in OPS] + [n for n in ops if n in FUN]
        if bad:
            raise Violated("registered with the wrong kind: %s" % bad)
    chk.obl("operations", "FunctionFactory", "every documented name is registered with its kind", registered, where=wf)

    def evaluate(I, text, env):
        """Load the formula and evaluate it with the variables given as abstract values through an engine."""
        e = I.make("Engine", "e")
        for k, v in env.items():
            if k != "x":
                I.call(e, "addInputVariable", W.input(k, [], v))
        f = I.make("Function", "f")
        I.call(f, "load", text, e)
        return I.num(I.get(f, "membership", env.get("x", N.const(0.0))))
    for name, (ar, f) in list(FUN.items()) + [(n, (o[0], o[3])) for n, o in OPS.items()]:
        lo, hi = DOM.get(name, (-4.0, 4.0))
        pts = [tuple(rng.uniform(lo, hi) for _ in range(ar)) for _ in range(40 if chk.thorough else 10)]
        if name in ("eq", "neq", "gt", "ge", "lt", "le"):
            pts += [(2.0, 2.0), (2.0, 2.0 + 4e-7), (2.0 + 4e-7, 2.0), (2.0, 2.00001), (2.00001, 2.0)]
        if name in ("and", "or"):
            pts += list(itertools.product((0.0, 1.0, 0.5), repeat=2))
        if name == "!":
            pts += [(0.0,), (1.0,), (0.5,)]
        if name == "round":
            pts += [(0.5,), (-0.5,), (1.5,), (2.4,), (-2.6,)]
        for k, a in enumerate(pts):
            def sc(I):
                env = {v: N.leaf(v, p, p if name in ("eq", "neq", "gt", "ge", "lt", "le", "and", "or", "!", "round") else p + 1e-9) for v, p in zip(("va", "vb"), a)}
                v = ("va", "vb")
                txt = "%s(%s)" % (name, ", ".join(v[:ar])) if name in FUN else "%s va" % name if ar == 1 else "va %s vb" % name
                g = evaluate(I, txt, env)
                demand(g, float(f(*a)), "%s at %s" % (txt, a), 1e-6)
            chk.obl("operations", "FunctionFactory " + name, "%s at %s" % (name, ", ".join("%.4g" % x for x in a)), sc, where=wf)
    # constants of opaque value inside formulas, argument order with opaque operands: a - b vs b - a, etc.
    # precedence: every pair (and triple) of operators, both shapes, plus random trees
    def written(t, k):
        """The parts of a formula in prefix (0), infix (1) or postfix (2) order."""
        if isinstance(t, str):
            return [t]
        args = [written(a, k) for a in t[1:]]
        if k == 0:
            return [t[0]] + sum(args, [])
        if k == 2:
            return sum(args, []) + [t[0]]
        if t[0] in FUN:
            return [t[0], "("] + sum(args, []) + [")"]
        return [t[0]] + args[0] if len(args) == 1 else args[0] + [t[0]] + args[1]

    def number(x):
        try:
            return float(x)
        except ValueError:
            return None

    def count(t, ns):
        return 0 if isinstance(t, str) else (t[0] in ns) + sum(count(a, ns) for a in t[1:])
    leaves = ["va", "vb", "vc", "vd", "ve", "vf"]
    trees = []
    bops = [o for o in OPS if OPS[o][0] == 2]
    for a, b in itertools.product(bops, repeat=2):
        trees.append((b, (a, "va", "vb"), "vc"))
        trees.append((a, "va", (b, "vb", "vc")))
    for u in ("!", "~"):
        for b in bops:
            trees += [(b, (u, "va"), "vb"), (b, "va", (u, "vb")), (u, (b, "va", "vb"))]
    for u, w in itertools.product(("!", "~"), repeat=2):
        trees.append((u, (w, "va")))
    for u in ("sqrt", "abs", "min", "max", "atan2", "pow"):
        n = FUN[u][0]
        for b in bops:
            trees.append((b, (u,) + ("va", "vb")[:n], "vc"))
            trees.append((b, "vc", (u,) + ("va", "vb")[:n]))
            trees.append((u,) + ((b, "va", "vb"), ("~", "vc"))[:n])

    def grow(d, used):
        if d == 0 or rng.random() < 0.2:
            used.append(1)
            return leaves[(len(used) - 1) % len(leaves)] if rng.random() < 0.85 else rng.choice(("2", "0.5", "3.25", "1"))
        r = rng.random()
        if r < 0.2:
            return (rng.choice(("abs", "sin", "floor", "exp")), grow(d - 1, used))
        if r < 0.35:
            return (rng.choice(("min", "max", "atan2", "gt", "le")), grow(d - 1, used), grow(d - 1, used))
        if r < 0.5:
            return (rng.choice(("~", "!")), grow(d - 1, used))
        return (rng.choice(bops), grow(d - 1, used), grow(d - 1, used))
    for _ in range(600 if chk.thorough else 120):
        trees.append(grow(rng.choice((2, 3, 3, 4)), []))
    seen = set()
    for t in trees:
        for full in (False, True):
            txt = render(t, 0, full)
            if txt in seen:
                continue
            seen.add(txt)
            env = {v: rng.choice((1.0, 1.0, 0.37, 2.3, 1.7, 0.83, 3.1)) if any(o in txt for o in ("!", "and", "or")) else 0.4 + 0.37 * i for i, v in enumerate(leaves)}
            try:
                want = value(t, env)
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            if want != want or abs(want) > 1e9:
                continue
            if rng.random() < 0.5:
                txt = txt.replace(" + ", "+").replace(" * ", "*").replace(" - ", "-").replace("~ ", "~").replace(" ^ ", "^").replace(" / ", "/")

            def sc(I):
                g = evaluate(I, txt, {k: N.const(v) if "%" in txt else N.leaf(k, v, v + 1e-9) for k, v in env.items()})
                demand(g, want, "`%s` with %s" % (txt, {k: v for k, v in env.items() if k in txt}), 1e-6)
            chk.obl("precedence", "Function::toPostfix", txt, sc, where=wp)
            if full:
                continue

            def wr(I, txt=txt, t=t):
                e = I.make("Engine", "e")
                for k in env:
                    I.call(e, "addInputVariable", W.input(k, [], N.const(0.5)))
                f = I.val(I.scall(FLN + "Function::create", "f", txt, e))
                root = I.val(I.call(f, "root"))
                for m, k in (("toPrefix", 0), ("toInfix", 1), ("toPostfix", 2)):
                    got = I.val(I.call(root, m, None))
                    got = (got.v if hasattr(got, "v") else got).split()
                    want = written(t, k)
                    if len(got) != len(want) or not all(a == b or b.replace(".", "").isdigit() and number(a) == float(b) for a, b in zip(got, want)):
                        raise Violated("`%s` is written by %s as `%s`" % (txt, m, show(" ".join(got))))
                for kind, ns in (("Operator", OPS), ("Function", FUN)):
                    n = invoke(I, root, "treeSize", ["Type", "Node"], next(int(c["v"]) for q, en in I.p.enums.items() if q.endswith("Function::Element::Type") for c in en["c"] if c["n"] == kind), None)
                    if n != count(t, ns):
                        raise Violated("`%s` has %d elements of type %s, treeSize counts %s" % (txt, count(t, ns), kind, show(n)))
            chk.obl("written", "Function::Node", txt, wr, where=chk.loc("Function::Node", "toPrefix") or wp)
    # variables
    for txt, want in (("in0 - in1", 1.0 - 2.0), ("out0 * 10 + in1", 52.0), ("x - in0", 0.25 - 1.0), ("in1 / x", 8.0), ("x", 0.25), ("in1", 2.0), ("k + in0", 9.0)):
        def sc(I):
            e = I.make("Engine", "e")
            for i in range(2):
                I.call(e, "addInputVariable", W.input("in%d" % i, [], N.leaf("in%d" % i, 1.0 + i, 1.0 + i + 1e-9)))
            o = W.output("out0", [], lo=0.0, hi=100.0)
            I.call(o, "setValue", N.leaf("out0", 5.0, 5.0 + 1e-9))
            I.call(e, "addOutputVariable", o)
            f = I.make("Function", "f", txt, e)
            if "k" in txt:
                fv = [v for (c, n), v in f.f.items() if n == "variables" and hasattr(v, "d")]
                if not fv:
                    return False
                fv[0].d["k"] = I.std.Pair("k", Cell(N.const(8.0)))
            I.call(f, "load")
            demand(I.num(I.get(f, "membership", N.leaf("arg", 0.25, 0.25 + 1e-9))), want, "`%s`" % txt, 1e-6)
            # values are read at each evaluation
            if "in1" in txt and "k" not in txt:
                I.call(I.get(e, "getInputVariable", 1), "setValue", N.const(4.0))
                env = {"in0": 1.0, "in1": 4.0, "out0": 5.0, "x": 0.25}
                demand(I.num(I.get(f, "membership", N.const(0.25))), eval(txt, env), "`%s` after changing in1" % txt, 1e-6)
        chk.obl("variables", "Function::membership", txt, sc, where=chk.loc("Function", "membership"))
    def same_names(I):
        """The variables of the engine take the place of values given under their names; x is always the argument."""
        e = I.make("Engine", "e")
        I.call(e, "addInputVariable", W.input("x", [], N.leaf("input x", 3.0, 3.1)))
        I.call(e, "addInputVariable", W.input("k", [], N.leaf("input k", 5.0, 5.1)))
        f = I.make("Function", "f", "x * 2 + k", e)
        fv = [v for (c, n), v in f.f.items() if n == "variables" and hasattr(v, "d")]
        if not fv:
            return False
        fv[0].d["k"] = I.std.Pair("k", Cell(N.const(100.0)))
        fv[0].d["x"] = I.std.Pair("x", Cell(N.const(200.0)))
        I.call(f, "load")
        for _ in range(2):
            g = I.num(I.get(f, "membership", N.leaf("arg", 0.25, 0.2500001)))
            if g.hi < 5.49 or g.lo > 5.61:
                raise Violated("`x * 2 + k` at 0.25 with variables x = 3 and k = 5 of the engine is %s" % show(g))
    chk.obl("variables", "Function::membership", "variables of the engine named as values given and as the argument", same_names, where=chk.loc("Function", "membership"))

    # malformed
    bad = ["", "(", ")", "(1 + 2", "1 + 2)", "((1)", "1 +", "* 2", "max(1)", "max(1,2,3)", "sin(1,2)", "sin()", "unknown + 1", "unknown", "1, 2", "max(1,2", "~", "!", "(1)(2)", "()", "1 2",
           "sin", "and", "1 and", "max", ",", "1 + (2 * ", "q(1)", "2 ^", "% 3", "max(,)", "1 + + 2", "in0 + in9", ")(", "max)1,2("]
    for txt in bad:
        def sc(I):
            e = I.make("Engine", "e")
            I.call(e, "addInputVariable", W.input("in0", [], N.const(1.0)))
            f = I.make("Function", "f")
            expect_throw(I, lambda: I.call(f, "load", txt, e), "loading `%s`" % txt)
        chk.obl("malformed", "Function::load", "`%s`" % txt, sc, where=wp)

    def unloaded(I):
        f = I.make("Function", "f", "1 + 2", None)
        expect_throw(I, lambda: I.call(f, "membership", 0.5), "evaluating a formula that is not loaded")
        I.call(f, "load")
        if not I.truth(I.get(f, "isLoaded")):
            raise Violated("a loaded formula reports not loaded")
        I.call(f, "unload")
        if I.truth(I.get(f, "isLoaded")):
            raise Violated("an unloaded formula reports loaded")
        expect_throw(I, lambda: I.call(f, "membership", 0.5), "evaluating a formula that is unloaded")
    chk.obl("malformed", "Function::membership", "not loaded", unloaded, where=chk.loc("Function", "membership"))
    return ("Abstract interpretation of the registered operators and functions against the operation they name, of the parser and evaluator on formulas rendered from expression trees "
            "(every ordered pair of operators and random trees, with minimal and full parentheses) against the value of the tree, and of malformed formulas.")
