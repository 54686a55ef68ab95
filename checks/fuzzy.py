"""Opaque collaborators: classes of which only the interface (and documented algebra) is known to the analysis."""
import zlib
from flai import num as N
from flai.num import Num
from flai.interp import Obj, Undecided, UB, CppThrow, Violated, UBool, Cell, FnRef
from flai.check import INF, same, near, show

FLN = "fuzzylite::"
_terms = {}        # (kind, label) -> {tag: (list of tags, Num)}
_by_tag = {}


def spot(key, lo=0.05, hi=0.95, w=1e-9):
    """A narrow interval determined by the key: distinct keys practically always have disjoint intervals."""
    h = zlib.crc32(repr(key).encode()) * 2654435761 % (1 << 40)
    v = lo + (hi - lo) * (h / float(1 << 40))
    return v, v + w


def opaque(*key, lo=0.05, hi=0.95):
    a, b = spot(key, lo, hi)
    return Num(a, b, False, N.cons("op", *key))


def names(key):
    return tuple(N._names.get(k, k) for k in key)


class Algebra:
    """Free commutative monoid: the documented laws of norms and nothing else."""

    def __init__(self, kind, label):
        self.kind, self.label = kind, label
        self.parts = {}
        self.num = {}
        self.neutral = 1.0 if kind == "T" else 0.0

    def flat(self, x):
        if x.is_point() and x.lo == self.neutral:
            return []
        p = self.parts.get(x.tag)
        if p is not None:
            return p
        self.num[x.tag] = x
        return [x.tag]

    def __call__(self, *xs):
        if any(x.only_nan() for x in xs):
            return N.NAN
        if self.kind == "T" and any(x.is_point() and x.lo == 0 for x in xs):
            return N.const(0.0)
        l = []
        for x in xs:
            l += self.flat(x)
        l.sort()
        if not l:
            return N.const(self.neutral)
        if len(l) == 1:
            return self.num[l[0]]
        key = (self.kind, self.label) + tuple(l)
        nan = any(self.num[t].nan for t in l)
        a, b = spot(key)
        r = Num(a, b, nan, N.cons("norm", *key))
        self.parts[r.tag] = l
        return r


_alg = {}


def algebra(kind, label):
    return _alg.setdefault((kind, label), Algebra(kind, label))


def mu(label, x, lo=0.05, hi=0.95):
    """The membership of x in the opaque term `label`."""
    return opaque("mu", label, x.tag, lo=lo, hi=hi)


def hedged(name, x):
    return opaque("hedge", name, x.tag)


class World:
    """Synthetic classes for one Check."""

    def __init__(self, chk):
        I = self.I = chk.I
        F = FLN

        def S(text):
            return I.std.SStr(text)

        def norm_compute(kind):
            def f(I, this, a):
                return algebra(kind, this.ext)(I.num(I.val(a[0])), I.num(I.val(a[1])))
            return f
        self.T = I.synth(F + "TNorm", "OpaqueTNorm", {"compute": norm_compute("T"), "className": lambda I, t, a: S("OpaqueTNorm"), "clone": lambda I, t, a: self.tnorm(t.ext)})
        self.S = I.synth(F + "SNorm", "OpaqueSNorm", {"compute": norm_compute("S"), "className": lambda I, t, a: S("OpaqueSNorm"), "clone": lambda I, t, a: self.snorm(t.ext)})

        def member(I, t, a):
            x = I.num(I.val(a[0]))
            e = t.ext
            if isinstance(e, dict):
                if e.get("throws"):
                    raise CppThrow(I.make("Exception", "opaque term", heap=False))
                if "value" in e:
                    return e["value"]
                return e["fn"](I, x)
            return mu(e, x)
        self.Term = I.synth(F + "Term", "OpaqueTerm", {
            "membership": member, "className": lambda I, t, a: S("OpaqueTerm"), "parameters": lambda I, t, a: S(""), "configure": lambda I, t, a: None,
            "clone": lambda I, t, a: self.term(I.get(t, "getName"), t.ext)})

        def defuzz(I, t, a):
            I.events.append(("defuzzify", t, a[0], I.num(I.val(a[1])), I.num(I.val(a[2]))))
            return t.ext(I, t, a) if callable(t.ext) else t.ext
        self.Def = I.synth(F + "Defuzzifier", "OpaqueDefuzzifier", {"defuzzify": defuzz, "className": lambda I, t, a: S("OpaqueDefuzzifier"),
                                                                     "clone": lambda I, t, a: self.defuzzifier(t.ext)})

        def act(I, t, a):
            I.events.append(("activate", t, a[0]))
            if callable(t.ext):
                t.ext(I, t, a[0])
            return None
        self.Act = I.synth(F + "Activation", "OpaqueActivation", {"activate": act, "className": lambda I, t, a: S("OpaqueActivation"), "parameters": lambda I, t, a: S(""),
                                                                   "configure": lambda I, t, a: None, "clone": lambda I, t, a: self.activation(t.ext)})

    def tnorm(self, label):
        return self.I.new_synth(self.T, label=label, ext=label)

    def snorm(self, label):
        return self.I.new_synth(self.S, label=label, ext=label)

    def term(self, name, ext=None):
        t = self.I.new_synth(self.Term, label=name, ext=ext if ext is not None else name)
        self.I.call(t, "setName", name)
        return t

    def defuzzifier(self, ext):
        return self.I.new_synth(self.Def, ext=ext)

    def activation(self, ext):
        return self.I.new_synth(self.Act, ext=ext)

    def input(self, name, terms, value=None, lo=-1000.0, hi=1000.0):
        v = self.I.make("InputVariable", name, lo, hi)
        for t in terms:
            self.I.call(v, "addTerm", t)
        if value is not None:
            self.I.call(v, "setValue", value)
        return v

    def output(self, name, terms, agg=None, defuzzifier=None, lo=0.0, hi=1.0):
        v = self.I.make("OutputVariable", name, lo, hi)
        for t in terms:
            self.I.call(v, "addTerm", t)
        if agg:
            self.I.call(v, "setAggregation", agg)
        if defuzzifier:
            self.I.call(v, "setDefuzzifier", defuzzifier)
        return v

    def opaque_hedges(self, on=True):
        """Replace the named hedges' transformation by an uninterpreted one."""
        I = self.I
        for q in I.p.subclasses(FLN + "Hedge"):
            n = q.split("::")[-1]
            if n in ("Any", "HedgeFunction"):
                continue

            def h(I, this, a, f, n=n.lower()):
                return hedged(n, I.num(I.val(a[0])))
            if on:
                I.hooks[q + "::hedge"] = h
            else:
                I.hooks.pop(q + "::hedge", None)


def terms_of(I, agg):
    """[(term object, degree, implication object)] of an Aggregated."""
    out = []
    n = I.get(agg, "numberOfTerms")
    for i in range(n):
        a = I.val(I.call(agg, "getTerm", i))
        out.append((I.get(a, "getTerm"), I.get(a, "getDegree"), I.get(a, "getImplication")))
    return out


def expect(a, b, msg):
    """Raise Violated when a is definitely not b; returns True when definitely equal, None otherwise."""
    r = near(a, b)
    if r is False:
        raise Violated("%s: got %s, specified %s" % (msg, show(a), show(b)))
    return r


def expect_throw(I, f, msg, exc="fuzzylite::Exception"):
    try:
        f()
    except CppThrow as e:
        o = e.obj
        q = o.cls if isinstance(o, Obj) else getattr(o, "q", "?")
        if exc and not (isinstance(o, Obj) and I.p.is_a(o.cls, exc)):
            raise Violated("%s: raises %s instead of %s" % (msg, q, exc))
        return True
    raise Violated("%s: no exception is raised" % msg)


def multiset(I, got, want, msg):
    """Compare two lists of tuples as multisets."""
    if len(got) != len(want):
        raise Violated("%s: got %d entries %s, specified %d %s" % (msg, len(got), show(got), len(want), show(want)))
    left = list(want)
    unsure = False
    for g in got:
        hit = None
        for w in left:
            if same(g, w) is True:
                hit = w
                break
        if hit is None:
            for w in left:
                if all(near(x, y) is not False for x, y in zip(g, w)):
                    hit = w
                    unsure = True
                    break
        if hit is None:
            raise Violated("%s: %s is not among the specified %s" % (msg, show(g), show(want)))
        left.remove(hit) if False else left.pop(next(i for i, w in enumerate(left) if w is hit))
    return None if not unsure else False
