"""C27: the generated C++ and Java programs are read as statements and carried out on the interpreted library."""
import re
from flai import num as N
from flai.check import AnalysisBroken, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import Cell
from .fuzzy import FLN, opaque
from .objects import Values, describe, demand_same, short, NAMES, KINDS, manager
from .params import plain
from .texts import E, V, B, T, R1, specs, make_engine, exported, ab, xy, IGN, nm
from .copies import rich_engine

TOKEN = re.compile(r'\s+|//[^\n]*|(?P<id>[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)*)|(?P<num>[0-9]+(?:\.[0-9]+)?(?:e[+-]?[0-9]+)?|[\ue000-\uefff])'
                   r'|(?P<str>"(?:[^"\\\n]|\\.)*")|(?P<op>->|[-;=*(),.])')
ESC = {"n": "\n", "t": "\t", "r": "\r", '"': '"', "\\": "\\", "'": "'", "0": "\0"}


def tokens(t):
    out, k = [], 0
    while k < len(t):
        m = TOKEN.match(t, k)
        if not m:
            raise Violated("the program does not parse at %r" % plain(t[k:k + 40].split("\n")[0]))
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        k = m.end()
    return out


class Program:
    """Carries out a generated program."""

    def __init__(self, I, text, java, namespace, tolerant=()):
        self.I, self.java, self.ns = I, java, namespace
        self.t = tokens(text)
        self.k = 0
        self.vars = {}
        self.order = []
        self.using = False

    def peek(self, n=0):
        return self.t[self.k + n] if self.k + n < len(self.t) else ("end", "")

    def take(self, v=None, kind=None):
        t = self.peek()
        if v is not None and t[1] != v or kind is not None and t[0] != kind:
            near = " ".join(x[1] for x in self.t[max(0, self.k - 4):self.k + 3])
            raise Violated("the program is not valid: expected %s, found %s near %r" % (v or kind, t[1] or "the end", plain(near)))
        self.k += 1
        return t[1]

    def cls(self, name):
        I = self.I
        q = name
        if self.java:
            if "::" in q:
                raise Violated("the name %s is not a Java name" % q)
        elif q.startswith("fl::"):
            if not self.ns:
                raise Violated("the class %s carries a namespace prefix, none was requested" % q)
            q = q[4:]
        elif self.ns:
            raise Violated("the class %s carries no namespace prefix, although one was requested" % q)
        elif not self.using:
            raise Violated("the class %s is used before the namespace is opened" % q)
        if FLN + q not in I.p.cls:
            raise Violated("the program uses the class %s, which does not exist" % name)
        return FLN + q

    def args(self, ctx):
        out = []
        self.take("(")
        if self.peek()[1] == ")":
            self.take(")")
            return out
        while True:
            out.append(self.expr())
            if self.peek()[1] == ",":
                self.take(",")
                continue
            self.take(")")
            return out

    def number(self):
        tok = self.take(kind="num")
        return ("int", int(tok)) if tok.isdigit() else ("num", self.I.num(self.I.scall(FLN + "Operation::toScalar", tok)))

    def expr(self):
        kind, v = self.peek()
        if v == "-":
            self.take()
            k, x = self.expr()
            if k not in ("int", "num"):
                raise Violated("the program negates something that is no number")
            return (k, -x if k == "int" else N.neg(x))
        if kind == "num":
            return self.number()
        if kind == "str":
            self.take()
            return ("str", re.sub(r"\\(.)", lambda m: ESC.get(m.group(1), m.group(1)), v[1:-1]))
        if kind != "id":
            raise Violated("the program is not valid at %r" % plain(v))
        self.take()
        if v in ("true", "false"):
            return ("bool", v == "true")
        if v == ("null" if self.java else "fl::null"):
            return ("null", None)
        if not self.java and v in ("fl::nan", "fl::inf"):
            return ("num", N.NAN if v == "fl::nan" else N.const(INF))
        if self.java and v == "Double":
            self.take(".")
            c = self.take(kind="id")
            if c not in ("NaN", "POSITIVE_INFINITY", "NEGATIVE_INFINITY"):
                raise Violated("there is no constant Double.%s" % c)
            return ("num", N.NAN if c == "NaN" else N.const(INF if c[0] == "P" else -INF))
        if v == "new":
            c = self.cls(self.take(kind="id"))
            if self.java or self.peek()[1] == "(":
                a = self.args(c)
            else:
                a = []
            return ("obj", self.construct(c, a))
        if v in self.vars:
            return ("obj", self.vars[v])
        fn = None
        if self.java and self.peek()[1] == ".":
            self.take(".")
            c, fn = v, self.take(kind="id")
        elif not self.java and "::" in v and self.peek()[1] == "(":
            c, _, fn = v.rpartition("::")
        if fn is None:
            raise Violated("the program uses %s, which is not declared" % v)
        c = self.cls(c)
        return ("obj", self.static(c, fn, self.args(c)))

    def raw(self, a, q=None):
        return a[1]

    def construct(self, c, a):
        I = self.I
        if I.p.cls[c].abstract:
            raise Violated("the program constructs the abstract class %s" % short(c))
        return I.make(c, *[self.raw(x) for x in a])

    def static(self, c, fn, a):
        I = self.I
        vs = [self.raw(x) for x in a]
        kinds = [x[0] for x in a]
        s = short(c)
        if fn == "create" and s in ("Discrete", "Linear", "Function"):
            if self.java and s == "Discrete":
                vs.insert(1, len(vs) - 1)
                kinds.insert(1, "int")
            first = 2
            if s in ("Discrete", "Linear"):
                for k in kinds[first:]:
                    if k != "num":
                        raise Violated("%s::create is given %s where it reads a floating-point number" % (s, "an integer" if k == "int" else "something"))
                if s == "Discrete" and vs[1] != len(vs) - 2:
                    raise Violated("Discrete::create is told of %s values and given %d" % (vs[1], len(vs) - 2))
                if s == "Linear" and len(vs) - 2 != self.I.get(vs[1], "numberOfInputVariables") + 1:
                    raise Undecided("a number of coefficients that create() does not take")
                if s == "Linear" and len(vs) == 2:
                    raise Violated("Linear::create is given no coefficients")
        elif (s, fn) != ("Rule", "parse"):
            raise Violated("the program calls %s::%s" % (s, fn))
        return I.val(I.scall(c + "::" + fn, *vs))

    def run(self):
        I = self.I
        while self.peek()[0] != "end":
            kind, v = self.peek()
            if v == "using" and not self.java:
                self.take()
                self.take("namespace")
                self.take("fuzzylite")
                self.take(";")
                self.using = True
                continue
            if v in self.vars:
                o = self.vars[v]
                self.take()
                self.take("." if self.java else "->")
                m = self.take(kind="id")
                a = self.args(v)
                self.take(";")
                if not I.p.methods(o.dyn, m, len(a)):
                    raise Violated("the program calls %s of a %s with %d arguments" % (m, short(o.dyn), len(a)))
                I.call(o, m, *[self.raw(x) for x in a])
                continue
            if kind != "id":
                raise Violated("the program is not valid at %r" % plain(v))
            self.take()
            c = self.cls(v)
            if not self.java:
                self.take("*")
            n = self.take(kind="id")
            if n in self.vars or "::" in n:
                raise Violated("the program declares %s %s" % (n, "twice" if n in self.vars else ""))
            self.take("=")
            k, o = self.expr()
            self.take(";")
            if k != "obj" or o.dyn != c:
                raise Violated("the variable %s is declared as %s and initialised otherwise" % (n, short(c)))
            self.vars[n] = o
            self.order.append(n)
        return self.vars


def extra_specs():
    out = []
    for d in ('with "quotes"', "with \\ backslash", "with\nline break", "ends with \\", 'a"b\\"c', "tab\there", "", "//no comment", "; -> x"):
        out.append(("texts %r" % d, E([V("in1", desc=d)], [V("out1", desc=d)], [B(d + " b", desc=d)], name=d, desc=d)))
    for r in ("if in1 is a\nthen out1 is x", "if\tin1 is a and\r\nin2 is b then out1 is x", "if in1 is a  then out1 is x ", 'if in1 is a then out1 is x # so "it" is \\'):
        out.append(("rule %r" % r, E(ab(2), xy(1), [B("b", (R1[0].replace("out2", "out1"), r))])))
    for f in ("in1 +\n2", "\tin1 * in2"):
        out.append(("formula %r" % f, E(ab(2), [V("out1", [T("Function", "f", f)])], [B()])))
    out.append(("no activation", E(ab(1), xy(1), [B("b", act=None), B("c")])))
    out.append(("nothing set", E([V("in1")], [V("out1", aggregation=None, defuzz=None)], [B("b", conj=None, disj=None, impl=None, act=None)])))
    out.append(("threshold in activation", E(ab(1), xy(1), [B("b", act=("First", (("setNumberOfRules", 2), ("setThreshold", N.NAN)))), B("c", act=("Threshold", (("setValue", INF), ("setComparison", 1))))])))
    out.append(("Linear for one input", E(ab(1), [V("out1", [T("Linear", "l", nm(1, -2))])], [B()])))
    out.append(("Linear for three inputs", E(ab(3), [V("out1", [T("Linear", "l", nm(1, -2, 3, 4)), T("Linear", "m")][:1])], [B()])))
    out.append(("negative numbers", E([V("in1", [T("Triangle", "a", nm(-3, -2.5, -1), h=-0.5)], lo=-5.0, hi=-1.0)], [V("out1", [T("Discrete", "d", nm(-1, 0, 2, -0.5), h=0.5)], default=-4.5)], [B()])))
    out.append(("discrete nan and inf", E([V("in1", [T("Discrete", "d", [N.const(-INF), N.const(0.5), N.const(INF), N.NAN])])], xy(1), [B()])))
    return out


SKIP = ("Linear among the inputs", "names V2.x", "names true")


def c27(chk):
    I, p = chk.I, chk.p
    chk.rule("rebuild", "carrying out the generated statements on the library yields an engine equal in every query")
    chk.rule("names", "the program names its variables after the engine's, or by kind and index, as set")
    chk.rule("parts", "the expression generated for an operator or defuzzifier alone constructs its class")
    modes = [("CppExporter", ns, vn) for ns in (True, False) for vn in (False, True)] + [("JavaExporter", False, vn) for vn in (False, True)]
    for c in ("CppExporter", "JavaExporter"):
        if FLN + c not in p.cls:
            raise AnalysisBroken("class %s not found" % c)
    ign = IGN

    def rebuild(I, make, mode):
        c, ns, vn = mode
        x = I.make(c)
        I.call(x, "setUsingVariableNames", vn)
        if c == "CppExporter":
            I.call(x, "setUsingNamespace", ns)
        e = make(I)
        t = exported(I, x, e)
        pr = Program(I, t, c == "JavaExporter", ns)
        vs = pr.run()
        engines = [n for n in pr.order if vs[n].dyn == FLN + "Engine"]
        if len(engines) != 1:
            raise Violated("the program builds %d engines" % len(engines))
        r = demand_same(describe(I, e, ignore=ign), describe(I, vs[engines[0]], ignore=ign), "built by the program, the engine")
        if c == "CppExporter" and not ns and not pr.using:
            raise Violated("the program does not open the namespace")
        return r

    todo = specs("FLL") + extra_specs()
    n = 0
    for case, s in todo:
        if case in SKIP:
            continue
        for k, m in enumerate(modes):
            if not chk.thorough and k not in (0, 3, 4) and (n + k) % 4:
                continue
            if m[2] and case in ("no name",):
                continue
            if m[2] and case.startswith("names "):
                continue
            chk.obl("rebuild", m[0], "%s%s%s" % (case, ", prefixed" if m[1] else "", ", variable names" if m[2] else ""), lambda I, s=s, m=m: rebuild(I, lambda I: make_engine(I, s), m),
                    where=chk.loc(m[0], "toString"))
        n += 1
    for m in modes:
        for flip in (False, True):
            for seed in (1000, 5000, 9000)[:3 if chk.thorough else 1]:
                chk.obl("rebuild", m[0], "a rich engine %d%s%s%s" % (seed, ", flipped" if flip else "", ", prefixed" if m[1] else "", ", variable names" if m[2] else ""),
                        lambda I, m=m, flip=flip, seed=seed: rebuild(I, lambda I: rich_engine(I, Values(I, seed), flip=flip, weights=False, fuzzy=False, blocks=3), m), where=chk.loc(m[0], "toString"))

    def names(I, mode, n):
        c, ns, vn = mode
        x = I.make(c, ns, vn) if c == "CppExporter" else I.make(c, vn)
        if bool(I.val(I.call(x, "isUsingVariableNames"))) != vn:
            raise Violated("constructed with variable names %s it reports otherwise" % vn)
        e = make_engine(I, E([V("temp%d" % j) for j in range(n)], [V("power%d" % j) for j in range(n)], [B("laws%d" % j) for j in range(n)]))
        pr = Program(I, exported(I, x, e), c == "JavaExporter", ns)
        pr.run()
        got = [v for v in pr.order if pr.vars[v].dyn != FLN + "Engine"]
        if vn:
            want = [w + str(j) for w in ("temp", "power", "laws") for j in range(n)]
        else:
            want = [w + (str(j + 1) if n > 1 else "") for w in ("inputVariable", "outputVariable", "ruleBlock") for j in range(n)]
        if got != want:
            raise Violated("the variables are named %s, specified %s" % (got, want))
    for m in modes:
        for k in (1, 2, 3):
            chk.obl("names", m[0], "%d of each%s%s" % (k, ", prefixed" if m[1] else "", ", variable names" if m[2] else ""), lambda I, m=m, k=k: names(I, m, k), where=chk.loc(m[0], "toString"))

    for kind in ("TNorm", "SNorm", "Hedge", "Defuzzifier", "Activation"):
        for q in p.subclasses(FLN + kind):
            if p.cls[q].abstract or short(q) in ("TNormFunction", "SNormFunction", "HedgeFunction") or not p.cls[q].file.startswith(("fuzzylite/", "src/")):
                continue
            for c, ns in (("CppExporter", True), ("CppExporter", False), ("JavaExporter", False)):
                if kind == "Hedge" and c == "JavaExporter":
                    continue

                def part(I, q=q, c=c, ns=ns):
                    x = I.make(c)
                    if c == "CppExporter":
                        I.call(x, "setUsingNamespace", ns)
                    o = I.make(q)
                    pr = Program(I, exported(I, x, o), c == "JavaExporter", ns)
                    pr.using = True
                    k, got = pr.expr()
                    if pr.peek()[0] != "end":
                        raise Violated("after the expression for a %s there is more: %r" % (short(q), pr.peek()[1]))
                    if k != "obj" or got.dyn != q:
                        raise Violated("the expression for a %s constructs %s" % (short(q), short(got.dyn) if k == "obj" else "nothing"))
                    return demand_same(describe(I, o), describe(I, got), "constructed by the generated expression, the %s" % short(q))
                chk.obl("parts", c, "%s%s" % (short(q), ", prefixed" if ns else ""), part, where=chk.loc(c, "toString"))
    return "Interprets CppExporter and JavaExporter over engines that vary one attribute at a time, parses the program they generate, and carries out its statements on the interpreted library."
