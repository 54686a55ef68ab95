"""C15, C16: integral and weighted defuzzifiers."""
import itertools, math, random
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import UBool
from .fuzzy import World, terms_of, expect, expect_throw, algebra, mu, opaque, FLN
from .engine import leaf


def c15(chk):
    chk.rule("samples", "the term is sampled exactly at the midpoints of r equal slices of the range")
    chk.rule("statistic", "the result is the documented statistic of the samples")
    I, W = chk.I, World(chk)
    rng = random.Random(chk.seed)
    known = ("Centroid", "Bisector", "SmallestOfMaximum", "LargestOfMaximum", "MeanOfMaximum")
    for c in known:
        if FLN + c not in chk.p.cls:
            raise AnalysisBroken("defuzzifier %s not found" % c)
    LV = {"z": 0.0, "l": 0.2, "m": 0.5, "h": 0.9, "L": 0.21, "M": 0.52, "H": 0.93, "t": 0.003,
          # less than the maxima h and m by less than the library's comparison tolerance
          "a": 0.9 - 4e-7, "b": 0.5 - 7e-7, "c": 0.9 - 8e-7}
    pats = ["z", "h", "zz", "hh", "lh", "hl", "zh", "hz", "lmh", "hml", "mhm", "hmh", "zhz", "zhhz", "hhzz", "zzhh", "lhhl", "hllh", "lmhml", "zzzhz", "mMlLh", "tzhzt", "hzzzh", "lllll", "zzzz",
            "thHtm", "mmmlll", "ha", "ah", "aha", "hah", "ahc", "cah", "zahaz", "bm", "mbz", "zbm", "chhc"]
    if chk.thorough:
        pats += ["".join(rng.choice("zlmhLMHt") for _ in range(rng.randint(2, 12))) for _ in range(120)]
    ranges = [(-2.0, 6.0), (0.0, 1.0), (100.0, 100.5), (-7.0, -3.0)]
    for c in known:
        con, where = c + "::defuzzify", chk.loc(c, "defuzzify", 3)
        # the scale of the memberships (heights and unbounded sums take them anywhere) makes no difference
        todo = [(pi, pat, ri, lo, hi, 1.0) for pi, pat in enumerate(pats) for ri, (lo, hi) in enumerate(ranges) if chk.thorough or ri <= 1 or pi % 4 == 0]
        todo += [(pi, pat, 0, -2.0, 6.0, k) for pi, pat in enumerate(("lmh", "hml", "zlhm", "lhhl", "mhmlzt")) for k in ((1e7, 1e12, 1e300, 30.0, 1e-3) + ((1e-9, 1e-100) if c in ("Centroid",) else ()))]
        for pi, pat, ri, lo, hi, scale in todo:
                r = len(pat)
                dx = (hi - lo) / r
                mid = [lo + (i + 0.5) * dx for i in range(r)]
                ys = [LV[ch] * scale for ch in pat]
                tol = 1e-6 * max(1.0, abs(lo), abs(hi))

                def fn(I, x):
                    I.events.append(("sample", x))
                    if x.only_nan() or abs(x.lo) == INF:
                        return N.NAN
                    k = min(range(r), key=lambda i: abs(mid[i] - x.lo))
                    y = ys[k]
                    return N.const(y) if y == 0 else N.leaf("y%s" % pat[k], y, y + 1e-9 * scale)

                def expected():
                    s = sum(ys)
                    if c == "Centroid":
                        return None if s == 0 else [sum(a * b for a, b in zip(ys, mid)) / s]
                    top = [x for x, y in zip(mid, ys) if y == max(ys)]
                    if c == "SmallestOfMaximum":
                        return [top[0]]
                    if c == "LargestOfMaximum":
                        return [top[-1]]
                    if c == "MeanOfMaximum":
                        return [sum(top) / len(top)]
                    if s == 0:
                        return None
                    cum, a = [], 0.0
                    for y in ys:
                        a += y
                        cum.append(abs(a / s - 0.5))
                    best = min(cum)
                    tie = [x for x, v in zip(mid, cum) if v - best < 1e-6]
                    return [sum(tie) / len(tie)] + tie

                def sc(I, setter=False):
                    t = W.term("t", {"fn": fn})
                    d = I.make(c, 3) if setter else I.make(c, r)
                    if setter:
                        I.call(d, "setResolution", r)
                    I.events = []
                    res = I.num(I.get(d, "defuzzify", t, N.leaf("min", lo, lo + 1e-12), N.leaf("max", hi, hi + 1e-12)))
                    xs = [e[1] for e in I.events if e[0] == "sample"]
                    for x in xs:
                        if x.only_nan() or all(x.hi < m - tol or x.lo > m + tol for m in mid):
                            raise Violated("resolution %d over [%g, %g]: sampled at %r, the midpoints are %s" % (r, lo, hi, x, mid))
                    for m in mid:
                        if not any(x.lo <= m + tol and x.hi >= m - tol for x in xs):
                            raise Violated("resolution %d over [%g, %g]: never sampled at the midpoint %g" % (r, lo, hi, m))
                    e = expected()
                    if e is None:
                        if not res.nan:
                            raise Violated("zero area: result %r, documented nan" % res)
                        return
                    if res.only_nan():
                        raise Violated("result is nan, documented %s" % e[0])
                    if len(e) > 2:      # ties: any of them, or between
                        a, b = min(e), max(e)
                    else:
                        a = b = e[0]
                    if res.hi < a - tol or res.lo > b + tol:
                        raise Violated("memberships %s over [%g, %g]: result %r, documented %r" % (ys, lo, hi, res, e[0]))
                    return None if res.lo >= a - 10 * tol and res.hi <= b + 10 * tol and not res.nan else False
                chk.obl("statistic" if ri else "samples", con, "memberships %s over [%g,%g]%s" % (pat, lo, hi, "" if scale == 1 else " times %g" % scale), lambda I: sc(I, ri == 1), where=where)
        for r in ([1, 2, 3, 7, 10] + ([50, 100] if chk.thorough else [])):
            def sc(I):
                xs = []

                def fn(I, x):
                    xs.append(x)
                    return N.leaf("y%d" % len(xs), 0.0, 1.0)
                t = W.term("t", {"fn": fn})
                d = I.make(c, r)
                I.hooks.pop("x", None)
                return I.num(I.get(d, "defuzzify", t, N.leaf("min", -1.0, -0.5), N.leaf("max", 2.0, 3.0)))
            if c == "Centroid":
                chk.interval("statistic", con, "any memberships, resolution %d" % r, sc, -1.0, 3.0, where)
    return ("Abstract interpretation of the five integral defuzzifiers on an opaque term whose sample memberships are narrow boxes in every relevant order, for resolutions 1..12 and "
            "several ranges; the sampled abscissas and the enclosure of the result must be compatible with the documented midpoints and statistic.")


def c16(chk):
    chk.rule("value", "the result is the weighted average/sum of the grouped terms' Takagi-Sugeno or Tsukamoto values")
    chk.rule("inference", "automatic mode treats Constant, Linear, Function as Takagi-Sugeno and monotonic terms as Tsukamoto, and raises otherwise")
    chk.rule("argument", "anything but an aggregated term raises a fuzzylite exception")
    I, W = chk.I, World(chk)
    rng = random.Random(chk.seed)

    def tsu(I, t, a):
        return opaque("tsu", t.ext, I.num(I.val(a[0])).tag, lo=2.0, hi=9.0)

    def mem(I, t, a):
        return opaque("mu", t.ext, I.num(I.val(a[0])).tag, lo=-5.0, hi=-1.0)
    Mono = I.synth(FLN + "Term", "OpaqueMonotonic", {
        "membership": mem, "tsukamoto": tsu, "isMonotonic": lambda I, t, a: True, "className": lambda I, t, a: I.std.SStr("OpaqueMonotonic"),
        "parameters": lambda I, t, a: I.std.SStr(""), "configure": lambda I, t, a: None, "clone": lambda I, t, a: None})

    def term(I, name):
        t = I.new_synth(Mono, label=name, ext=name)
        I.call(t, "setName", name)
        return t

    def combine(c, ws, zs):
        s = [0.0, 0.0]
        w0 = [0.0, 0.0]
        for w, z in zip(ws, zs):
            p = [a * b for a in (w.lo, w.hi) for b in (z.lo, z.hi)]
            s = [s[0] + min(p), s[1] + max(p)]
            w0 = [w0[0] + w.lo, w0[1] + w.hi]
        if c == "WeightedSum":
            return s[0] - 1e-6, s[1] + 1e-6
        q = [a / b for a in s for b in w0]
        return min(q) - 1e-6, max(q) + 1e-6
    seqs = ["a", "ab", "aa", "aba", "abc", "aab", "abcab", "aaa"]
    if chk.thorough:
        seqs += ["".join(rng.choice("abcd") for _ in range(rng.randint(2, 8))) for _ in range(40)]
    for c in ("WeightedAverage", "WeightedSum"):
        where = chk.loc(c, "takagiSugeno")

        def check(I, s, T, agg, d, value, degs):
            g = I.make("Aggregated", "out", -INF, INF, W.snorm("agg") if agg else None)
            ds = {}
            for k, ch in enumerate(s):
                I.call(g, "addTerm", T[ch], degs[k], W.tnorm("imp") if k % 2 else None)
                ds.setdefault(ch, []).append(degs[k])
            S = algebra("S", "agg")
            ws, zs = [], []
            for ch, l in ds.items():
                if agg:
                    w = S(*l)
                else:
                    w = l[0]
                    for x in l[1:]:
                        w = N.add(w, x)
                ws.append(w)
                zs.append(value(ch, w))
            res = I.num(I.get(d, "defuzzify", g, leaf("min", 0.0), leaf("max", 1.0)))
            a, b = combine(c, ws, zs)
            if res.only_nan() or res.hi < a or res.lo > b:
                raise Violated("fuzzy output %s: result %r, documented [%r, %r]" % (s, res, a, b))
            return None if res.lo >= a - 1e-3 and res.hi <= b + 1e-3 else False
        for s in seqs:
            for agg in (True, False):
                for typ in ("TakagiSugeno", "Tsukamoto", "Automatic"):
                    def sc(I):
                        T = {ch: term(I, "term_" + ch) for ch in sorted(set(s))}
                        d = I.make(c, typ)
                        degs = [leaf("deg%d" % k, 0.1 + 0.07 * ((k * 5) % 11)) for k in range(len(s))]
                        if typ == "TakagiSugeno":
                            v = lambda ch, w: opaque("mu", "term_" + ch, w.tag, lo=-5.0, hi=-1.0)
                        else:
                            v = lambda ch, w: opaque("tsu", "term_" + ch, w.tag, lo=2.0, hi=9.0)
                        if len(set(s)) == len(s) or agg:
                            return check(I, s, T, agg, d, v, degs)
                        # sums of degrees: the value number of the sum depends on association; compare the value by probing
                        vals = {}

                        def probe(kind):
                            def f(I, t, a):
                                w = I.num(I.val(a[0]))
                                vals.setdefault(t.ext, []).append(w)
                                return Num(3.0 + len(t.ext) + ord(t.ext[-1]) * 0.01)
                            return f
                        q = I.synth(FLN + "Term", "Probe", {"membership": probe("mu"), "tsukamoto": probe("tsu"), "isMonotonic": lambda I, t, a: True,
                                                             "className": lambda I, t, a: I.std.SStr("Probe"), "parameters": lambda I, t, a: I.std.SStr(""),
                                                             "configure": lambda I, t, a: None, "clone": lambda I, t, a: None})
                        for ch in T:
                            T[ch] = I.new_synth(q, label="term_" + ch, ext="term_" + ch)
                            I.call(T[ch], "setName", "term_" + ch)
                        r = check(I, s, T, agg, d, lambda ch, w: Num(3.0 + len("term_" + ch) + ord(ch) * 0.01), degs)
                        for ch in T:
                            w = [x for x, k in zip(degs, s) if k == ch]
                            lo, hi = sum(x.lo for x in w) - 1e-9, sum(x.hi for x in w) + 1e-9
                            for v in vals.get("term_" + ch, []):
                                if v.hi < lo or v.lo > hi:
                                    raise Violated("term %s is evaluated at %r, its total degree is [%r, %r]" % (ch, v, lo, hi))
                        return r
                    chk.obl("value", c + "::defuzzify", "%s of %s, aggregation %s" % (typ, s, agg), sc, where=where)
        # real consequents: constants, linear functions, formulas
        for s in ("a", "ab", "aba", "abc"):
            for typ in ("TakagiSugeno", "Automatic"):
                for kind in ("Constant", "Linear", "Function"):
                    def sc(I):
                        e = I.make("Engine", "e")
                        xs = [N.leaf("in%d" % i, 1.0 + i, 1.0 + i + 1e-9) for i in range(2)]
                        for i in range(2):
                            I.call(e, "addInputVariable", W.input("in%d" % i, [W.term("q")], xs[i]))
                        T, z = {}, {}
                        for i, ch in enumerate(sorted(set(s))):
                            if kind == "Constant":
                                T[ch] = I.make("Constant", "k" + ch, N.leaf("c" + ch, 2.0 + i, 2.0 + i + 1e-9))
                                z[ch] = lambda w, i=i: Num(2.0 + i, 2.0 + i + 1e-9)
                            elif kind == "Linear":
                                co = [N.const(1.5 + i), N.const(-0.5), N.const(4.0)]
                                T[ch] = I.make("Linear", "k" + ch, co, e)
                                z[ch] = lambda w, i=i: Num((1.5 + i) * 1.0 - 0.5 * 2.0 + 4.0 - 1e-6, (1.5 + i) * 1.0 - 1.0 + 4.0 + 1e-6)
                            else:
                                T[ch] = I.scall(FLN + "Function::create", "k" + ch, "in0 * %d + in1 - x" % (i + 2), e)
                                T[ch] = I.val(T[ch])
                                z[ch] = lambda w, i=i: Num(i + 2 + 2.0 - w.hi - 1e-6, i + 2 + 2.0 - w.lo + 1e-6)
                        d = I.make(c, typ)
                        degs = [leaf("deg%d" % k, 0.1 + 0.07 * ((k * 5) % 11)) for k in range(len(s))]
                        return check(I, s, T, True, d, lambda ch, w: z[ch](w), degs)
                    chk.obl("value", c + "::defuzzify", "%s of %s %s" % (typ, s, kind), sc, where=where)
        # inference
        wi = chk.loc("WeightedDefuzzifier", "inferType")
        from .terms import default_term, MONO
        for tc in ("Constant", "Linear", "Function", "Triangle", "Gaussian", "Discrete", "Rectangle") + MONO:
            def sc(I):
                d = I.make(c)
                t = default_term(I, tc)
                if tc == "Function":
                    I.call(t, "load", "x + 1")
                if tc == "Linear":
                    t = I.make("Linear", "k", [N.const(2.0)], I.make("Engine", "e"))
                if tc == "Constant":
                    I.call(t, "setValue", 3.0)
                g = I.make("Aggregated", "out", 0.0, 1.0, None)
                I.call(g, "addTerm", t, leaf("d", 0.4), None)
                got = I.get(d, "inferType", t)
                want = 1 if tc in ("Constant", "Linear", "Function") else 2 if tc in MONO else 0
                if got != want:
                    raise Violated("type inferred for %s is %s" % (tc, got))
                if I.get(d, "inferType", g) != want:
                    raise Violated("type inferred for a fuzzy output of %s is %s" % (tc, I.get(d, "inferType", g)))
                if I.get(d, "inferType", I.val(I.call(g, "getTerm", 0))) != want:
                    raise Violated("type inferred for an activated %s differs" % tc)
                if want == 0:
                    expect_throw(I, lambda: I.call(d, "defuzzify", g, 0.0, 1.0), "automatic type with %s" % tc)
                else:
                    r = I.get(d, "defuzzify", g, 0.0, 1.0)
                    e = I.get(t, "membership" if want == 1 else "tsukamoto", leaf("d", 0.4))
                    if c == "WeightedAverage":
                        lo, hi = (0.4 / 0.400001 * e.lo, 0.400001 / 0.4 * e.hi) if e.lo >= 0 else (0.400001 / 0.4 * e.lo, max(0.4 / 0.400001 * e.hi, 0.400001 / 0.4 * e.hi))
                    else:
                        p = [a * b for a in (0.4, 0.400001) for b in (e.lo, e.hi)]
                        lo, hi = min(p), max(p)
                    if r.hi < lo - 1e-6 or r.lo > hi + 1e-6:
                        raise Violated("automatic type with %s: result %r, documented [%r, %r]" % (tc, r, lo, hi))
            chk.obl("inference", c + "::inferType", tc, sc, where=wi)
        for a, b in (("Constant", "Ramp"), ("Ramp", "Constant"), ("Constant", "Triangle"), ("Triangle", "Ramp"), ("Linear", "SShape")):
            def sc(I):
                d = I.make(c)
                g = I.make("Aggregated", "out", 0.0, 1.0, None)
                for i, tc in enumerate((a, b)):
                    I.call(g, "addTerm", default_term(I, tc, "t%d" % i), leaf("d%d" % i, 0.4), None)
                expect_throw(I, lambda: I.call(d, "defuzzify", g, 0.0, 1.0), "automatic type with %s and %s" % (a, b))
            chk.obl("inference", c + "::inferType", "%s and %s" % (a, b), sc, where=wi)
        # longer fuzzy outputs: one term of another type anywhere, repeated terms, with and without aggregation
        for base, odd in (("Constant", "Ramp"), ("Ramp", "Constant"), ("Constant", "Triangle"), ("SShape", "Bell"), ("Linear", None), ("Ramp", None), ("Triangle", None)):
            for n in (3, 4, 6):
                for pos in range(n) if odd else (None,):
                    for agg in (False, True):
                        def sc(I, base=base, odd=odd, n=n, pos=pos, agg=agg):
                            d = I.make(c)
                            g = I.make("Aggregated", "out", 0.0, 1.0, I.make("Maximum") if agg else None)
                            ts = {}
                            for k in range(n):
                                cls, nm = (odd, "odd") if k == pos else (base, "t%d" % (k // 2))
                                if nm not in ts:
                                    ts[nm] = default_term(I, cls, nm) if cls != "Linear" else I.make("Linear", nm, [N.const(2.0)], I.make("Engine", "e"))
                                I.call(g, "addTerm", ts[nm], leaf("d%d" % k, 0.4), None)
                            if odd or base == "Triangle":
                                return expect_throw(I, lambda: I.call(d, "defuzzify", g, 0.0, 1.0), "automatic type with %d %s and a %s at %s" % (n, base, odd, pos))
                            want = 1 if base == "Linear" else 2
                            if I.get(d, "inferType", g) != want:
                                raise Violated("type inferred for %d of %s is %s" % (n, base, I.get(d, "inferType", g)))
                        chk.obl("inference", c + "::inferType", "%d of %s, %s at %s, aggregation %s" % (n, base, odd, pos, agg), sc, where=wi)
        # particular degrees: zero, one, undefined, equal
        for ds in itertools.chain(itertools.product((0.0, 1.0, 0.25, float("nan")), repeat=2), itertools.product((0.0, 1.0, 0.5), repeat=3)):
            for typ in ("TakagiSugeno", "Automatic"):
                for same_ in (False, True):
                    def sc(I, ds=ds, typ=typ, same_=same_):
                        d = I.make(c, typ)
                        g = I.make("Aggregated", "out", -INF, INF, None)
                        zs = (3.0, 3.0, -2.0) if same_ else (3.0, -7.5, 11.0)
                        for k, (w, z) in enumerate(zip(ds, zs)):
                            I.call(g, "addTerm", I.make("Constant", "k%d" % k, z), N.NAN if w != w else N.const(w), None)
                        num, den = sum(w * z for w, z in zip(ds, zs)), sum(ds)
                        want = num if c == "WeightedSum" else (num / den if den else float("nan"))
                        expect(I.get(d, "defuzzify", g, 0.0, 1.0), N.NAN if want != want else Num(want - 1e-9, want + 1e-9), "%s of the degrees %s" % (c, ds))
                    chk.obl("value", c + "::defuzzify", "%s with degrees %s%s" % (typ, ds, ", equal values" if same_ else ""), sc, where=where)
        # tiny and huge degrees weigh what they weigh
        for ds in itertools.chain(((x,) for x in (1e-7, 9e-7, 1e-12, 1e-300, 1e9)), ((1e-7, 2e-7), (3e-7, 0.5), (0.5, 3e-7), (0.0, 1e-7), (1e-7, 0.0, 1e-7), (1e-300, 3e-300), (0.5, 1e-9, 0.25), (1e8, 2e8), (2.5, 7.5, 1.0))):
            for typ in ("TakagiSugeno", "Automatic", "Tsukamoto"):
                def sc(I, ds=ds, typ=typ):
                    d = I.make(c, typ)
                    g = I.make("Aggregated", "out", -INF, INF, None)
                    zs = (3.0, -7.5, 11.0)
                    for k, (w, z) in enumerate(zip(ds, zs)):
                        if typ == "Tsukamoto":
                            q = I.synth(FLN + "Term", "Fixed", {"membership": lambda I, t, a: N.NAN, "tsukamoto": lambda I, t, a: N.const(t.ext), "isMonotonic": lambda I, t, a: True,
                                                                "className": lambda I, t, a: I.std.SStr("Fixed"), "parameters": lambda I, t, a: I.std.SStr(""),
                                                                "configure": lambda I, t, a: None, "clone": lambda I, t, a: None})
                            t = I.new_synth(q, label="k%d" % k, ext=z)
                            I.call(t, "setName", "k%d" % k)
                        else:
                            t = I.make("Constant", "k%d" % k, z)
                        I.call(g, "addTerm", t, N.const(w), None)
                    num, den = sum(w * z for w, z in zip(ds, zs)), sum(ds)
                    want = num if c == "WeightedSum" else num / den
                    e = abs(want) * 1e-9
                    expect(I.get(d, "defuzzify", g, 0.0, 1.0), Num(want - e, want + e), "%s of the degrees %s" % (c, ds))
                chk.obl("value", c + "::defuzzify", "%s with degrees %s" % (typ, ds), sc, where=where)
        for tc in ("Constant", "Triangle", "Activated", None):
            for typ in ("Automatic", "TakagiSugeno", "Tsukamoto"):
                def sc(I):
                    d = I.make(c, typ)
                    t = None if tc is None else I.make("Activated", I.make("Constant", "k", 1.0), leaf("d", 0.4), None) if tc == "Activated" else I.make(tc, "t")
                    expect_throw(I, lambda: I.call(d, "defuzzify", t, 0.0, 1.0), "defuzzifying %s" % tc)
                chk.obl("argument", c + "::defuzzify", "%s, %s" % (tc, typ), sc, where=where)
    return ("Abstract interpretation of the weighted defuzzifiers on aggregated outputs of opaque terms (Takagi-Sugeno and Tsukamoto values are different opaque functions of the "
            "degree), repeated terms, with and without aggregation, plus real Constant, Linear and Function terms and every term class for type inference.")
