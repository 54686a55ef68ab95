"""C45: the R scripts of src/imex/RScriptExporter.cpp, read by a small parser of the R they are written in."""
import re
from flai.check import AnalysisBroken, show, Violated, Undecided, CppThrow
from flai.interp import Cell
from flai.stdlib import Stream
from .fuzzy import expect_throw, opaque, FLN
from .data import Machine, invoke, scope

TOKEN = re.compile(r"\s*(?:(#[^\n]*)|(\"(?:[^\"\\]|\\.)*\")|(\d+(?:\.\d+)?)|((?:[A-Za-z.\uf000-\uf0ff][\w.\uf000-\uf0ff]*)(?:::[A-Za-z.][\w.]*)?)|(<-|[-+*/=(){},;]))", re.S)
ESC = {"n": "\n", "t": "\t", '"': '"', "\\": "\\", "'": "'", "r": "\r"}


class Bad(Exception):
    pass


def tokens(t):
    out, i, line = [], 0, 1
    while i < len(t):
        m = TOKEN.match(t, i)
        if not m:
            if t[i:].strip() == "":
                break
            raise Bad("not R: %s" % show(t[i:].strip()[:60]))
        nl = t.count("\n", i, m.start(m.lastindex)) > 0
        if m.group(2) is not None:
            s = m.group(2)[1:-1]
            for e in re.findall(r"\\(.)", s, re.S):
                if e not in ESC:
                    raise Bad("a string has the unknown escape \\%s" % e)
            out.append(("s", re.sub(r"\\(.)", lambda k: ESC[k.group(1)], s, flags=re.S), nl))
        elif m.group(3) is not None:
            out.append(("n", float(m.group(3)), nl))
        elif m.group(4) is not None:
            out.append(("i", m.group(4), nl))
        elif m.group(5) is not None:
            out.append(("o", m.group(5), nl))
        i = m.end()
    out.append(("e", "", True))
    return out


class R:
    """statements: ("=", name, expr) | ("if", expr, [..], [..]) | expr;  expr: str | float | ("id", n) | ("call", f, [positional], {named}) | ("+", [exprs])"""

    def __init__(self, t):
        self.t, self.i = tokens(t), 0
        self.body = []
        while self.t[self.i][0] != "e":
            self.body.append(self.stmt())

    def peek(self, v=None, k="o"):
        x = self.t[self.i]
        return x[0] == k and (v is None or x[1] == v)

    def take(self, v):
        if not self.peek(v):
            raise Bad("%r is expected before %s" % (v, show(str(self.t[self.i][1])[:40])))
        self.i += 1

    def block(self):
        self.take("{")
        r = []
        while not self.peek("}"):
            if self.peek(k="e"):
                raise Bad("a block is not closed")
            r.append(self.stmt())
        self.take("}")
        return r

    def stmt(self):
        if self.peek("if", "i"):
            self.i += 1
            self.take("(")
            c = self.expr()
            self.take(")")
            a = self.block()
            b = []
            if self.peek("else", "i"):
                self.i += 1
                b = self.block()
            return ("if", c, a, b)
        if self.t[self.i][0] == "i" and self.t[self.i + 1][1] in ("=", "<-") and self.t[self.i + 1][0] == "o":
            n = self.t[self.i][1]
            self.i += 2
            r = ("=", n, self.expr())
        else:
            r = self.expr()
        if self.peek(";"):
            self.i += 1
        elif not self.t[self.i][2] and not self.peek("}"):
            raise Bad("%s follows a statement" % show(str(self.t[self.i][1])[:40]))
        return r

    def expr(self, inside=False):
        xs = [self.atom()]
        while self.peek("+") and (inside or not self.t[self.i][2]):
            self.i += 1
            xs.append(self.atom())
        return xs[0] if len(xs) == 1 else ("+", xs)

    def atom(self):
        k, v, _ = self.t[self.i]
        if k == "o" and v == "-":
            self.i += 1
            return -self.atom()
        self.i += 1
        if k in "sn":
            return v
        if k != "i":
            raise Bad("%s where an expression is expected" % show(str(v)))
        if not self.peek("("):
            return ("id", v)
        self.i += 1
        pos, named = [], {}
        while not self.peek(")"):
            if self.t[self.i][0] == "i" and self.t[self.i + 1][:2] == ("o", "="):
                n = self.t[self.i][1]
                self.i += 2
                if n in named:
                    raise Bad("the argument %s is given twice" % n)
                named[n] = self.expr(True)
            else:
                pos.append(self.expr(True))
            if not self.peek(")"):
                self.take(",")
        self.take(")")
        return ("call", v, pos, named)


def args(c, *names):
    """The arguments of a call by name, positional ones filling the names in order."""
    r = dict(c[3])
    left = [n for n in names if n not in r]
    if len(c[2]) > len(left):
        raise Bad("too many arguments of %s" % c[1])
    for n, v in zip(left, c[2]):
        r[n] = v
    return r


def idents(d):
    r = {}
    for k, v in d.items():
        if v.__class__ is not tuple or v[0] != "id":
            raise Bad("%s of a plot is no name of a column" % k)
        r[k] = v[1]
    return r


def plot(x):
    """What a chain of ggplot calls draws."""
    xs = x[1] if x.__class__ is tuple and x[0] == "+" else [x]
    if any(c.__class__ is not tuple or c[0] != "call" for c in xs):
        raise Bad("a plot is not a sum of calls")
    if xs[0][1] != "ggplot":
        raise Bad("a plot begins with %s" % xs[0][1])
    a = args(xs[0], "data", "mapping")
    ax = idents(args(a["mapping"], "x", "y"))
    r = {"data": a["data"], "x": ax.get("x"), "y": ax.get("y"), "layers": set(), "title": None, "flip": False, "scale": None}
    for c in xs[1:]:
        f = c[1]
        if f in ("geom_tile", "geom_line"):
            m = idents(args(args(c, "mapping")["mapping"], "x", "y"))
            r["layers"].add((f, m.get("fill") or m.get("color") or m.get("colour"), m.get("x"), m.get("y")))
        elif f == "stat_contour":
            d = args(c, "mapping")
            m = idents(args(d["mapping"], "x", "y", "z"))
            r["layers"].add((f, m.get("z"), m.get("x"), m.get("y"), d.get("color")))
        elif f in ("scale_fill_gradient", "scale_color_gradient"):
            d = args(c, "low", "high")
            r["scale"] = (f, d.get("low"), d.get("high"))
        elif f == "ggtitle":
            r["title"] = args(c, "label")["label"]
        elif f == "coord_flip":
            r["flip"] = True
        else:
            raise Undecided("a call of %s in a plot" % f)
    return r


def s_(t):
    return t.v if hasattr(t, "v") else t


def c45(chk):
    I, p = chk.I, chk.p
    if FLN + "RScriptExporter" not in p.cls:
        raise AnalysisBroken("no class RScriptExporter")
    chk.rule("script", "the script is R that defines the name, the description and the text of the engine as they are, whatever they contain")
    chk.rule("data", "the script contains exactly the dataset of the engine over the two inputs (or the values read), or reads the file named")
    chk.rule("plots", "for every output given there are two plots, of the surface over both orders of the inputs or of the curve and its flipped one, in the colours set, each arranged exactly once in order")
    chk.rule("entry points", "every overload writes the same script to a text, a stream or a file; the plain ones use the first two inputs and all outputs; engines without inputs or outputs are refused")
    w = chk.loc("RScriptExporter", "toString", 1)

    def machine(I, ni, no, name="engine", desc=""):
        m = Machine(I, ni, no)
        I.call(m.e, "setName", name)
        I.call(m.e, "setDescription", desc)
        for k, v in enumerate(m.ins):
            I.call(v, "setValue", opaque("held", k, lo=-1.0, hi=1.0))
        return m

    def parsed(t):
        try:
            return R(t).body
        except Bad as e:
            raise Violated("the script is no R: %s" % e)

    def check(I, t, m, a, b, outs, fld=None, path=None, colors=("yellow", "red", "black"), name="engine", desc="", fll=None):
        body = parsed(t)
        df = dict((x[1], x[2]) for x in body if x.__class__ is tuple and x[0] == "=")
        n = [x[1] for x in body if x.__class__ is tuple and x[0] == "="]
        if len(set(n)) != len(n):
            raise Violated("the script defines %s twice" % [x for x in n if n.count(x) > 1][0])
        if ("call", "library", [("id", "ggplot2")], {}) not in body:
            raise Violated("the script does not load ggplot2")
        if df.get("engine.name") != name:
            raise Violated("engine.name is %s, specified %s" % (show(df.get("engine.name")), show(name)))
        if df.get("engine.description", "") != desc:
            raise Violated("engine.description is %s, specified %s" % (show(df.get("engine.description", "")), show(desc)))
        want = fll if fll is not None else s_(I.get(I.make("FllExporter"), "toString", m.e))
        if df.get("engine.fll") != want:
            raise Violated("engine.fll is %s, specified %s" % (show(df.get("engine.fll")), show(want)))
        if path is not None:
            if df.get("engine.fldFile") != path:
                raise Violated("the script reads %s, specified %s" % (show(df.get("engine.fldFile")), show(path)))
            st = [x for x in body if x.__class__ is tuple and x[0] == "if" and any(y[0] == "=" and y[1] == "engine.df" for y in x[2])]
            if not st or not all(any(y[0] == "=" and y[1] == "engine.df" and ("id", "engine.fldFile") in y[2][2] for y in br) for br in (st[0][2], st[0][3])):
                raise Violated("the script does not read the file into its data frame either way")
        else:
            if df.get("engine.fld") != fld:
                raise Violated("the dataset is %s, specified %s" % (show(df.get("engine.fld")), show(fld)))
            d = df.get("engine.df")
            if not d or d[0] != "call" or ("call", "textConnection", [("id", "engine.fld")], {}) not in d[2]:
                raise Violated("the script does not make its data frame from its dataset")
            g = d[3]
            if g.get("header") not in (("id", "TRUE"), None) or g.get("sep", " ") != " ":
                raise Violated("the data frame is read with other separators or without header")
        nm = lambda v: s_(I.get(v, "getName"))
        lo, hi, co = colors
        A, B = nm(a), nm(b)
        want = []
        for z in outs:
            Z = nm(z)
            if a is not b:
                for x, y in ((A, B), (B, A)):
                    want.append({"data": ("id", "engine.df"), "x": x, "y": y, "layers": {("geom_tile", Z, None, None), ("stat_contour", Z, x, y, co)},
                                 "title": "(%s, %s) = %s" % (x, y, Z), "flip": False, "scale": ("scale_fill_gradient", lo, hi)})
            else:
                for flip in (False, True):
                    want.append({"data": ("id", "engine.df"), "x": A, "y": Z, "layers": {("geom_line", Z, None, None)}, "title": "%s vs %s" % ((Z, A) if flip else (A, Z)),
                                 "flip": flip, "scale": ("scale_color_gradient", lo, hi)})
        arr = None
        for x in body:
            if x.__class__ is tuple and x[0] == "if":
                for y in x[2]:
                    if y[0] == "=" and y[2].__class__ is tuple and y[2][0] == "call" and y[2][1] == "arrangeGrob":
                        arr = (y[1], y[2], x)
        if not arr:
            raise Violated("the plots are not arranged")
        g = arr[1]
        got = []
        for x in g[2]:
            if x[0] != "id" or x[1] not in df:
                raise Violated("%s is arranged, which is no plot defined" % show(str(x)))
            try:
                got.append(plot(df[x[1]]))
            except Bad as e:
                raise Violated("%s: %s" % (x[1], e))
        for k, (x, y) in enumerate(zip(got, want)):
            if x != y:
                d = [q for q in y if x[q] != y[q]][0]
                raise Violated("plot %d (%s) has the %s %s, specified %s" % (k + 1, y["title"], d, x[d], y[d]))
        if len(got) != len(want):
            raise Violated("%d plots are arranged, specified %d" % (len(got), len(want)))
        made = [k for k, v in df.items() if v.__class__ is tuple and str(v).find("'ggplot'") >= 0]
        if len(made) != len(want):
            raise Violated("%d plots are defined, specified %d" % (len(made), len(want)))
        if g[3].get("ncol") != 2.0 or g[3].get("top") != ("id", "engine.name"):
            raise Violated("the plots are not arranged in two columns under the name of the engine")
        if not any(y.__class__ is tuple and y[0] == "call" and y[1] == "ggsave" and ("id", arr[0]) in y[2] for y in arr[2][2]):
            raise Violated("the plots are not saved")

    # ---- script
    V_ = "fuzzylite::OutputVariable *"

    def outs_of(I, m, pick=None):
        return I.std.Vec([Cell(m.outs[k]) for k in (range(len(m.outs)) if pick is None else pick)], V_)

    def importing(I, m, a, b, path, pick=None, x=None):
        o = Stream("ostringstream")
        invoke(I, x or I.make("RScriptExporter"), "writeScriptImportingDataFrame", ["Engine *", "ostream", "InputVariable", "InputVariable", "string", "vector"], m.e, o, a, b, I.std.SStr(path), outs_of(I, m, pick))
        return o.buf
    TEXTS = ("plain", "two words", "", 'a "quoted" name', "back\\slash", "\\", "\\n", 'ends with \\"', "it's", "# no comment", "tabs\tand more", "100 %", "a = b; c")
    for k, t in enumerate(TEXTS):
        for what in ("name", "description", "path", "rule"):
            def f(I, t=t, what=what):
                m = machine(I, 2, 1, t if what == "name" else "engine", t if what == "description" else "")
                if what == "rule":
                    b = I.make("RuleBlock")
                    I.call(b, "setName", t)
                    I.call(b, "setDescription", t)
                    r = I.make("Rule")
                    I.call(r, "setText", "if in1 is a then " + t)
                    I.call(b, "addRule", r)
                    I.call(m.e, "addRuleBlock", b)
                path = t if what == "path" else "data.fld"
                check(I, importing(I, m, m.ins[0], m.ins[1], path), m, m.ins[0], m.ins[1], m.outs, path=path, name=t if what == "name" else "engine", desc=t if what == "description" else "")
            chk.obl("script", "RScriptExporter::writeScriptHeader", "%s %r" % (what, t), f, where=chk.loc("RScriptExporter", "writeScriptImportingDataFrame"))

    # ---- plots
    for ni, a, b in ((1, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1), (3, 2, 0), (3, 1, 2), (3, 2, 2)):
        for no, pick in ((1, None), (2, None), (3, None), (3, (2,)), (3, (2, 0)), (2, ()), (3, (1, 0, 2))):
            for cols in (None, ("white", "#00ff00", "blue")):
                def f(I, ni=ni, a=a, b=b, no=no, pick=pick, cols=cols):
                    m = machine(I, ni, no)
                    x = I.make("RScriptExporter")
                    if cols:
                        for n, c in zip(("Minimum", "Maximum", "Contour"), cols):
                            I.call(x, "set%sColor" % n, c)
                    t = importing(I, m, m.ins[a], m.ins[b], "x.fld", pick, x)
                    check(I, t, m, m.ins[a], m.ins[b], [m.outs[k] for k in (range(no) if pick is None else pick)], path="x.fld", **({"colors": cols} if cols else {}))
                chk.obl("plots", "RScriptExporter::writeScriptPlots", "inputs %d and %d of %d, outputs %s of %d%s" % (a + 1, b + 1, ni, "all" if pick is None else [k + 1 for k in pick], no, ", colours" if cols else ""),
                        f, where=chk.loc("RScriptExporter", "writeScriptPlots"))

    # ---- data
    def dataset(I, m, a, b, values=None, sc=None, src=None):
        o = Stream("ostringstream")
        x = I.make("FldExporter")
        if src is not None:
            invoke(I, x, "write", ["Engine *", "ostream", "istream"], m.e, o, Stream("istringstream", src))
        else:
            act = I.std.Vec([Cell(v if v is a or v is b else None) for v in m.ins], "fuzzylite::InputVariable *")
            invoke(I, x, "write", ["Engine *", "ostream", "int", "ScopeOfValues", "vector"], m.e, o, values, scope(I, sc), act)
        return o.buf
    HOWS = ("toString", "stream", "file")

    def produce(I, x, how, m, a, b, outs, values=None, sc=None, src=None):
        if src is not None:
            types, av = ["istream"], [Stream("istringstream", src)]
        else:
            types, av = ["int", "ScopeOfValues"], [values, scope(I, sc)]
        if how == "toString":
            return s_(invoke(I, x, "toString", ["Engine *", "InputVariable", "InputVariable"] + types + ["vector"], m.e, a, b, *av, outs))
        if how == "stream":
            o = Stream("ostringstream")
            invoke(I, x, "writeScriptExportingDataFrame", ["Engine *", "ostream", "InputVariable", "InputVariable"] + types + ["vector"], m.e, o, a, b, *av, outs)
            return o.buf
        invoke(I, x, "toFile", ["string", "Engine *", "InputVariable", "InputVariable"] + types + ["vector"], I.std.SStr("s.R"), m.e, a, b, *av, outs)
        if "s.R" not in I.files:
            raise Violated("no file is written")
        return I.files["s.R"]
    SRC = "in1 in2 in3 out1\n0.5 0.25 0.75 9\n-1 2 3 9\n# no\n\n7 8 9 9\n"
    for how in HOWS:
        for ni, a, b in ((1, 0, 0), (2, 0, 1), (2, 1, 0), (3, 0, 2), (3, 2, 1), (3, 1, 1)):
            for kind in ((3, "EachVariable"), (9, "AllVariables"), (16, "AllVariables"), SRC):
                def f(I, how=how, ni=ni, a=a, b=b, kind=kind):
                    kw = {"src": kind} if kind is SRC else {"values": kind[0], "sc": kind[1]}
                    m = machine(I, ni, 2)
                    fll = s_(I.get(I.make("FllExporter"), "toString", m.e))
                    t = produce(I, I.make("RScriptExporter"), how, m, m.ins[a], m.ins[b], outs_of(I, m, (1,)), **kw)
                    m2 = machine(I, ni, 2)
                    want = dataset(I, m2, m2.ins[a], m2.ins[b], **kw)
                    check(I, t, m, m.ins[a], m.ins[b], [m.outs[1]], fld=want, fll=fll)
                chk.obl("data" if how == "toString" else "entry points", "RScriptExporter::" + {"toString": "toString", "stream": "writeScriptExportingDataFrame", "file": "toFile"}[how],
                        "inputs %d and %d of %d, %s" % (a + 1, b + 1, ni, "values read" if kind is SRC else "%d %s" % kind), f, where=w)

    # ---- plain ones
    def plain(I, how, ni, no):
        m = machine(I, ni, no)
        x = I.make("RScriptExporter")
        if ni == 0 or no == 0:
            if how == "toString":
                return expect_throw(I, lambda: invoke(I, x, "toString", ["const fuzzylite::Engine *"], m.e), "an engine without inputs or outputs")
            expect_throw(I, lambda: invoke(I, x, "toFile", ["string", "const fuzzylite::Engine *"], I.std.SStr("s.R"), m.e), "an engine without inputs or outputs")
            return
        if how == "toString":
            t = s_(invoke(I, x, "toString", ["const fuzzylite::Engine *"], m.e))
        else:
            invoke(I, x, "toFile", ["string", "const fuzzylite::Engine *"], I.std.SStr("s.R"), m.e)
            t = I.files.get("s.R")
            if t is None:
                raise Violated("no file is written")
        m2 = machine(I, ni, no)
        b = 1 % ni
        want = dataset(I, m2, m2.ins[0], m2.ins[b], 1024, "AllVariables")
        check(I, t, m, m.ins[0], m.ins[b], m.outs, fld=want)
    for how in ("toString", "toFile"):
        for ni, no in ((0, 1), (1, 0), (0, 0), (1, 1), (3, 2)):
            if chk.thorough or ni < 3 or how == "toString":
                chk.obl("entry points", "RScriptExporter::" + how, "%d inputs and %d outputs" % (ni, no), lambda I, a=(how, ni, no): plain(I, *a), where=w)

    def closed(I, how):
        m = machine(I, 2, 1)
        x = I.make("RScriptExporter")
        bad = I.std.SStr("/no/such/s.R")
        if how == "values":
            f = lambda: invoke(I, x, "toFile", ["string", "Engine *", "InputVariable", "InputVariable", "int", "ScopeOfValues", "vector"], bad, m.e, m.ins[0], m.ins[1], 4, scope(I, "EachVariable"), outs_of(I, m))
        elif how == "read":
            f = lambda: invoke(I, x, "toFile", ["string", "Engine *", "InputVariable", "InputVariable", "istream", "vector"], bad, m.e, m.ins[0], m.ins[1], Stream("istringstream", SRC), outs_of(I, m))
        else:
            f = lambda: invoke(I, x, "toFile", ["string", "const fuzzylite::Engine *"], bad, m.e)
        expect_throw(I, f, "a file that cannot be created")
    for how in ("values", "read", "plain"):
        chk.obl("entry points", "RScriptExporter::toFile", "a file that cannot be created, " + how, lambda I, how=how: closed(I, how), where=w)
    return "Interprets RScriptExporter on engines of up to three inputs and outputs and parses the scripts as R."
