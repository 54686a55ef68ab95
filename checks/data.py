"""C28 (exported datasets) and C36 (benchmarks)."""
import itertools
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import Cell
from flai.stdlib import Stream
from .fuzzy import FLN, expect, expect_throw, opaque
from .objects import describe, demand_same, short
from .params import text

EACH, ALL = "EachVariable", "AllVariables"


def invoke(I, o, name, types, *args):
    """Call the overload of `name` whose parameter types contain the given words; defaults for the rest."""
    for _, m in I.p.methods(o.dyn, name):
        if len(m["pt"]) >= len(types) and all(t in x["t"] for t, x in zip(types, m["pt"])):
            try:
                extra = I.default_args(m["u"], len(types))
            except Exception:
                if len(m["pt"]) != len(types):
                    continue
                extra = []
            if len(types) + len(extra) != len(m["pt"]):
                continue
            return I.val(I.invoke(m["u"], o, list(args) + extra, m["virt"]))
    raise AnalysisBroken("no overload of %s with %s" % (name, types))


def scope(I, name):
    for q, e in I.p.enums.items():
        if q.endswith("FldExporter::ScopeOfValues"):
            for c in e["c"]:
                if c["n"] == name:
                    return int(c["v"])
    raise AnalysisBroken("no scope " + name)


def enum(I, q, name):
    for k, e in I.p.enums.items():
        if k.endswith(q):
            for c in e["c"]:
                if c["n"] == name:
                    return int(c["v"])
    raise AnalysisBroken("no %s in %s" % (name, q))


class Machine:
    """An engine of which only the interface is known: evaluating it yields fresh output values and is recorded."""

    def __init__(self, I, ins, outs, ranges=None, locked=(), disabled=()):
        self.I = I
        self.log = []          # ("restart",) | ("process", [inputs])
        self.given = []        # outputs of each evaluation

        def process(I, this, a):
            self.log.append(("process", [I.num(I.get(v, "getValue")) for v in self.ins]))
            n = len(self.given)
            row = [self.output(n, k) for k in range(outs)]
            for v, x in zip(self.outs, row):
                I.call(v, "setValue", x)
            self.given.append(row)

        def restart(I, this, a):
            self.log.append(("restart",))
            for v in self.ins:
                I.call(v, "setValue", N.NAN)
        q = I.synth(FLN + "Engine", "OpaqueEngine", {"process": process, "restart": restart})
        self.e = I.new_synth(q)
        self.ins, self.outs = [], []
        self.ranges = ranges or [(-1.5 + 2 * k, 3.0 + k * k) for k in range(ins)]
        for k in range(ins):
            v = I.make("InputVariable", "in%d" % (k + 1))
            I.call(v, "setRange", *self.ranges[k])
            if k in locked:
                I.call(v, "setLockValueInRange", True)
            if k in disabled:
                I.call(v, "setEnabled", False)
            I.call(self.e, "addInputVariable", v)
            self.ins.append(v)
        for k in range(outs):
            v = I.make("OutputVariable", "out%d" % (k + 1), -10.0, 10.0)
            if ins + k in disabled:
                I.call(v, "setEnabled", False)
            I.call(self.e, "addOutputVariable", v)
            self.outs.append(v)

    @staticmethod
    def output(n, k):
        return opaque("output", n, k, lo=-9, hi=9)

    def inputs(self):
        return [r[1] for r in self.log if r[0] == "process"]


def exporter(I, sep=" ", header=True, ins=True, outs=True):
    x = I.make("FldExporter", sep)
    I.call(x, "setExportHeader", header)
    I.call(x, "setExportInputValues", ins)
    I.call(x, "setExportOutputValues", outs)
    return x


def sampled(I, m, active, res):
    """All value vectors of the grid; res samples per active input; (lo, hi) enclosures."""
    axes = []
    for k, v in enumerate(m.ins):
        if active[k]:
            lo, hi = m.ranges[k]
            axes.append([lo + (hi - lo) * s / max(1, res - 1) for s in range(res)])
        else:
            axes.append([I.num(I.get(v, "getValue"))])
    return list(itertools.product(*axes))


def unmatched(rows, want):
    """Rows are exactly the wanted ones, each once (in any order): True/False/None."""
    if len(rows) != len(want):
        return False
    left = list(range(len(want)))
    for r in rows:
        # the nearest wanted row
        best = None
        for j in left:
            if all(near(a, b) is not False for a, b in zip(r, want[j])):
                best = j
                break
        if best is None:
            return False
        left.remove(best)
    return True


def lines_of(t):
    if t and not t.endswith("\n"):
        raise Violated("the text does not end with a line break: %s" % show(t))
    return t.split("\n")[:-1]


def check_rows(I, m, t, sep, header, ins, outs, blank=(), inputs=None):
    """The text is the header and one row per recorded evaluation (and the blank lines at the given row positions)."""
    lines = lines_of(t)
    if header:
        want = sep.join((["in%d" % (k + 1) for k in range(len(m.ins))] if ins else []) + (["out%d" % (k + 1) for k in range(len(m.outs))] if outs else []))
        if not lines or lines[0] != want:
            raise Violated("the header is %s, specified %s" % (show(lines[0] if lines else ""), show(want)))
        lines = lines[1:]
    rows = inputs if inputs is not None else m.inputs()
    want = []
    for r, y in zip(rows, m.given):
        want.append(sep.join([text(I, x) for x in (r if ins else [])] + [text(I, x) for x in (y if outs else [])]))
    for b in blank:
        want.insert(b, "")
    if len(lines) != len(want):
        raise Violated("%d rows follow the header, but the engine was evaluated %d times%s" % (len(lines), len(m.given), " and %d lines are blank" % len(blank) if blank else ""))
    for k, (a, b) in enumerate(zip(lines, want)):
        if a != b:
            raise Violated("row %d is %s, specified %s" % (k + 1, show(a), show(b)))


def c28(chk):
    I, p = chk.I, chk.p
    T = chk.thorough
    chk.rule("rows", "the header and every row list the selected columns, inputs then outputs; each row holds the inputs set before and the outputs read after exactly one evaluation")
    chk.rule("grid", "every combination of the equally spaced samples of the active inputs is visited exactly once; inactive inputs keep their value")
    chk.rule("reader", "each line of values read gives one row in order; comment lines and a leading header are skipped, blank lines are kept")
    chk.rule("reject", "too few values, a wrong number of active variables, text that is no number, and a file that cannot be created raise an exception")
    chk.rule("entry points", "text, stream and file hold the same dataset")
    w = chk.loc("FldExporter", "write")
    flags = list(itertools.product((True, False), repeat=3))
    seps = (" ", ",", ", ", "\t", ";", "")

    def grid(name, ni, no, values, sc, active=None, fl=(True, True, True), sep=" ", locked=(), how="toString", ranges=None, twice=False, disabled=()):
        def f(I):
            m = Machine(I, ni, no, ranges, locked, disabled)
            s = scope(I, sc)
            act = [True] * ni if active is None else list(active)
            for k, v in enumerate(m.ins):
                I.call(v, "setValue", opaque("held", k, lo=-1.0, hi=1.0))
            x = exporter(I, sep, *fl)
            vec = I.std.Vec([Cell(v if a else None) for v, a in zip(m.ins, act)], FLN + "InputVariable *")
            for again in range(2 if twice else 1):
                m.log, m.given = [], []
                want_held = [I.num(I.get(v, "getValue")) for v in m.ins]
                if how == "const":
                    t = I.val(invoke(I, x, "toString", ["const fuzzylite::Engine"], m.e))
                elif how == "toString":
                    t = invoke(I, x, "toString", ["Engine *", "int", "Scope"], m.e, values, s) if active is None else \
                        invoke(I, x, "toString", ["Engine *", "int", "Scope", "vector"], m.e, values, s, vec)
                elif how == "write":
                    o = Stream("ostringstream")
                    if active is None:
                        invoke(I, x, "write", ["Engine *", "ostream", "int", "Scope"], m.e, o, values, s)
                    else:
                        invoke(I, x, "write", ["Engine *", "ostream", "int", "Scope", "vector"], m.e, o, values, s, vec)
                    t = o.buf
                else:
                    if active is None:
                        invoke(I, x, "toFile", ["string", "Engine *", "int", "Scope"], I.std.SStr("data.fld"), m.e, values, s)
                    else:
                        invoke(I, x, "toFile", ["string", "Engine *", "int", "Scope", "vector"], I.std.SStr("data.fld"), m.e, values, s, vec)
                    t = I.files.get("data.fld")
                    if t is None:
                        raise Violated("no file is written")
                t = t.v if t.__class__ is I.std.SStr else t
                rows = m.inputs()
                n = sum(act)
                if sc == EACH:
                    ks = [values]
                else:
                    # as many samples per input as fit (one less where the root is not exact)
                    k = 1
                    while (k + 1) ** ni <= values:
                        k += 1
                    ks = [k] if ni == 1 or k ** ni != values or k in (1, 2, 4, 8) else [k, k - 1]
                ok = False
                for j, v in enumerate(m.ins):
                    I.call(v, "setValue", want_held[j])
                for k in ks:
                    if unmatched(rows, sampled(I, m, act, k)):
                        ok = True
                if not ok:
                    want = sampled(I, m, act, ks[0])
                    raise Violated("the engine is evaluated %d times, specified is the grid of %d samples of %s; evaluated with %s" % (
                        len(rows), ks[0], ["in%d" % (j + 1) for j in range(ni) if act[j]], show(rows[:6])))
                check_rows(I, m, t, sep, *fl)
                if any(r[0] != "process" for r in m.log) and False:
                    raise Violated("the engine is restarted")
        chk.obl("entry points" if how in ("write", "file", "const") else "grid" if fl == (True,) * 3 and sep == " " else "rows", "FldExporter::" + ("toFile" if how == "file" else how if how != "const" else "toString"), name, f, where=w)
    for ni in (1, 2, 3):
        for values in (1, 2, 3, 4) if ni < 3 else (1, 2, 3):
            grid("%d inputs, %d values each" % (ni, values), ni, 2, values, EACH)
    for ni, vs in ((1, (1, 2, 5, 7)), (2, (1, 2, 3, 4, 5, 8, 9, 10, 16, 20)), (3, (1, 7, 8, 9, 26, 30)), (4, (15, 16, 17))):
        for values in vs:
            grid("%d inputs, %d values in all" % (ni, values), ni, 1, values, ALL)
    for ni in (1, 2, 3):
        for active in itertools.product((True, False), repeat=ni):
            for sc, values in ((EACH, 3), (EACH, 2), (ALL, 10)):
                for how in ("toString", "write", "file"):
                    if how == "toString" or sc == EACH and values == 3:
                        grid("%d inputs, %d values for %s, active %s%s" % (ni, values, sc, active, "" if how == "toString" else ", " + how), ni, 1, values, sc, active=active, how=how)
    for how in ("const", "write", "file"):
        grid("%s, one input" % how, 1, 2, 1024 if how == "const" else 5, ALL, how=how)
        if how != "const":
            for sc in (EACH, ALL):
                grid("%s, two inputs, %s" % (how, sc), 2, 2, 4, sc, how=how)
    for fl in flags:
        for sep in seps:
            for ni, no in ((2, 2), (1, 0), (2, 1), (1, 3)) if T or sep in (" ", ", ") else ((2, 2),):
                grid("header %s, inputs %s, outputs %s, separator %r, %d inputs, %d outputs" % (fl + (sep, ni, no)), ni, no, 2, EACH, fl=fl, sep=sep)
                if T:
                    grid("header %s, inputs %s, outputs %s, separator %r, %d inputs, %d outputs, to file" % (fl + (sep, ni, no)), ni, no, 2, EACH, fl=fl, sep=sep, how="file")
    grid("locked in range", 2, 1, 3, EACH, locked=(0, 1))
    for off in ((0,), (1,), (0, 1), (2,), (0, 1, 2)):
        grid("without input %s enabled" % (off,), 2, 1, 3, EACH, disabled=off)
        grid("without input %s enabled, active (True, False)" % (off,), 2, 1, 3, EACH, active=(True, False), disabled=off)
    grid("twice", 2, 1, 2, EACH, twice=True)
    grid("no range", 2, 1, 3, EACH, ranges=[(1.0, 1.0), (0.0, 2.0)])

    # ---- vectors of values
    def vector(name, ni, no, nv, active, fl, given=None, how="write", disabled=()):
        def f(I):
            m = Machine(I, ni, no, disabled=disabled)
            held = [opaque("held", k, lo=-1.0, hi=1.0) for k in range(ni)]
            for v, h in zip(m.ins, held):
                I.call(v, "setValue", h)
            vals = given or [opaque("given", k, lo=-9, hi=9) for k in range(nv)]
            x = exporter(I, ",", *fl)
            vec = I.std.Vec([Cell(v) for v in vals], "double")
            o = Stream("ostringstream")
            if active is None:
                invoke(I, x, "write", ["Engine *", "ostream", "vector<double"], m.e, o, vec)
            else:
                av = I.std.Vec([Cell(v if a else None) for v, a in zip(m.ins, active)], FLN + "InputVariable *")
                invoke(I, x, "write", ["Engine *", "ostream", "vector<double", "vector"], m.e, o, vec, av)
            if not nv:
                if m.log or o.buf != "\n":
                    raise Violated("an empty vector gives %s and %d evaluations" % (show(o.buf), len(m.log)))
                return
            want = [v if active is None or active[k] else held[k] for k, v in enumerate(vals[:ni])]
            if len(m.given) != 1:
                raise Violated("the engine is evaluated %d times for one vector" % len(m.given))
            for k, (a, b) in enumerate(zip(m.inputs()[0], want)):
                expect(a, b, "input %d when evaluating" % (k + 1))
            check_rows(I, m, o.buf, ",", False, fl[1], fl[2], inputs=[want])
        chk.obl("rows", "FldExporter::write", name, f, where=w)
    for fl in flags[:4]:
        fl = (False,) + fl[1:]
        for ni, no in ((1, 1), (2, 2), (3, 1), (2, 0)):
            for nv in (0, ni, ni + 1, ni + no):
                vector("%d inputs, %d outputs, a vector of %d values, inputs %s, outputs %s" % (ni, no, nv, fl[1], fl[2]), ni, no, nv, None, fl)
            for off in ((0,), tuple(range(ni))):
                vector("%d inputs, %d outputs, a vector, inputs %s, outputs %s, without input %s enabled" % (ni, no, fl[1], fl[2], off), ni, no, ni, None, fl, disabled=off)
            for active in itertools.product((True, False), repeat=ni):
                vector("%d inputs, %d outputs, a vector, active %s, inputs %s, outputs %s" % (ni, no, active, fl[1], fl[2]), ni, no, ni, active, fl)
    for bad in (N.NAN, N.const(INF), N.const(-INF)):
        vector("a vector with %s" % show(bad), 2, 1, 2, None, (False, True, True), given=[bad, N.const(0.25)])

    # ---- lines
    def a(n):
        return text(I, opaque("given", n, lo=-9, hi=9))

    def reader(name, ni, no, lines, want, blank=(), fl=(True, True, True), how="toString", error=False):
        """lines: list of lists of numbers or texts; want: the rows of numbers"""
        def f(I):
            def num(c):
                return opaque("given", c, lo=-9, hi=9) if isinstance(c, int) else N.const(c)
            src = "\n".join(l if isinstance(l, str) else " ".join(text(I, num(c)) for c in l) for l in lines)
            for tail in ("", "\n"):
                m = Machine(I, ni, no)
                for k, v in enumerate(m.ins):
                    I.call(v, "setValue", opaque("held", k, lo=-1.0, hi=1.0))
                x = exporter(I, " ", *fl)
                s = Stream("istringstream", src + tail)

                def go():
                    if how == "toString":
                        t = invoke(I, x, "toString", ["Engine *", "istream"], m.e, s)
                        return t.v if t.__class__ is I.std.SStr else t
                    if how == "write":
                        o = Stream("ostringstream")
                        invoke(I, x, "write", ["Engine *", "ostream", "istream"], m.e, o, s)
                        return o.buf
                    invoke(I, x, "toFile", ["string", "Engine *", "istream"], I.std.SStr("data.fld"), m.e, s)
                    return I.files.get("data.fld")
                if error:
                    expect_throw(I, go, "reading %s" % show(src))
                    continue
                t = go()
                if len(m.given) != len(want):
                    raise Violated("the engine is evaluated %d times for %d lines of values" % (len(m.given), len(want)))
                rows = [[num(c) for c in r] for r in want]
                for k, (g, r) in enumerate(zip(m.inputs(), rows)):
                    for j, (aa, bb) in enumerate(zip(g, r)):
                        expect(aa, bb, "input %d when evaluating row %d" % (j + 1, k + 1))
                check_rows(I, m, t, " ", *fl, blank=blank, inputs=rows)
        chk.obl("reject" if error else "reader" if how == "toString" else "entry points", "FldExporter::" + ("toFile" if how == "file" else how), name + ("" if how == "toString" else ", " + how), f, where=w)
    for how in ("toString", "write", "file"):
        reader("no lines", 2, 1, [], [], how=how) if how == "toString" and False else None
        reader("two lines", 2, 2, [[1, 2], [3, 4]], [[1, 2], [3, 4]], how=how)
        reader("a header and lines", 2, 1, ["in1 in2 out1", [1, 2], [3, 4]], [[1, 2], [3, 4]], how=how)
        reader("outputs given too", 2, 1, ["in1 in2 out1", [1, 2, 7], [3, 4, 8]], [[1, 2], [3, 4]], how=how)
        reader("comments", 1, 1, ["in1", [1], "#2 3", [4], "# end"], [[1], [4]], how=how)
        reader("a comment first", 1, 1, ["# in1", [1]], [[1]], how=how)
        reader("blank lines", 1, 1, ["in1", [1], "", [2], "   ", [3]], [[1], [2], [3]], blank=(1, 3), how=how)
        reader("indented comments", 1, 1, ["in1", [1], "  # 2 3", [4], "\t#", "  #end"], [[1], [4]], how=how)
        reader("an indented comment first", 1, 1, [" # in1", [1]], [[1]], how=how)
        reader("blank lines and comments", 1, 1, ["in1", "", "#", [1], " ", " # x", [2], "\t", "#y"], [[1], [2]], blank=(0, 2, 4), how=how)
        reader("lines ended by a carriage return", 1, 1, ["in1\r", "1.5\r", "# x\r", "2.5\r"], [[1.5], [2.5]], how=how)
        reader("surrounding space", 2, 1, ["  1.5   2.5 ", "\t0.5 1.25"], [[1.5, 2.5], [0.5, 1.25]], how=how)
        reader("special values", 2, 1, [[1.0, 2.0], "nan inf", "-inf 0.0"], [[1.0, 2.0], [float("nan"), INF], [-INF, 0.0]], how=how)
        for k, bad in enumerate((["in1 in2", [1]], [[1, 2], [3]], ["in1 in2", [1, 2], "1.0 abc"], ["in1 in2", [1, 2], "in1 in2"], ["in1 in2", [1, 2], "1.0,2.0"], [[1]])):
            reader("malformed %d" % k, 2, 1, bad, None, how=how, error=True)
    for fl in flags:
        reader("header %s, inputs %s, outputs %s" % fl, 2, 2, ["x y", [1, 2], [3, 4], "", [5, 6]], [[1, 2], [3, 4], [5, 6]], blank=(2,), fl=fl)
        if T:
            for how in ("write", "file"):
                reader("header %s, inputs %s, outputs %s" % fl, 2, 2, ["x y", [1, 2], [3, 4], "", [5, 6]], [[1, 2], [3, 4], [5, 6]], blank=(2,), fl=fl, how=how)

    # ---- rejected
    def reject(name, fn):
        def f(I):
            m = Machine(I, 2, 1)
            expect_throw(I, lambda: fn(I, m), name)
            if m.given:
                raise Violated("%s: the engine is evaluated nevertheless" % name)
        chk.obl("reject", "FldExporter", name, f, where=w)

    def av(I, l):
        return I.std.Vec([Cell(x) for x in l], FLN + "InputVariable *")
    for n in (0, 1, 3):
        reject("a grid with %d active variables for 2 inputs" % n,
               lambda I, m, n=n: invoke(I, exporter(I), "toString", ["Engine *", "int", "Scope", "vector"], m.e, 4, scope(I, EACH), av(I, (m.ins * 2)[:n])))
        reject("a stream with %d active variables for 2 inputs" % n,
               lambda I, m, n=n: invoke(I, exporter(I), "write", ["Engine *", "ostream", "int", "Scope", "vector"], m.e, Stream("ostringstream"), 4, scope(I, ALL), av(I, (m.ins * 2)[:n])))
        reject("a vector with %d active variables for 2 inputs" % n,
               lambda I, m, n=n: invoke(I, exporter(I), "write", ["Engine *", "ostream", "vector<double", "vector"], m.e, Stream("ostringstream"),
                                        I.std.Vec([Cell(N.const(0.5)), Cell(N.const(1.0))], "double"), av(I, (m.ins * 2)[:n])))
    reject("a vector of one value for 2 inputs",
           lambda I, m: invoke(I, exporter(I), "write", ["Engine *", "ostream", "vector<double"], m.e, Stream("ostringstream"), I.std.Vec([Cell(N.const(0.5))], "double")))

    reject("a grid to a file that cannot be created", lambda I, m: invoke(I, exporter(I), "toFile", ["string", "Engine *", "int", "Scope"], I.std.SStr("/no/such/place/data.fld"), m.e, 4, scope(I, EACH)))
    reject("lines to a file that cannot be created", lambda I, m: invoke(I, exporter(I), "toFile", ["string", "Engine *", "istream"], I.std.SStr("/no/such/place/data.fld"), m.e, Stream("istringstream", "1 2")))
    for sc in (EACH, ALL):
        def none(I, sc=sc):
            m = Machine(I, 0, 1)
            invoke(I, exporter(I), "toString", ["Engine *", "int", "Scope"], m.e, 4, scope(I, sc))
        chk.obl("grid", "FldExporter::toString", "no inputs, %s" % sc, none, where=w)

    return ("Interprets every entry point of the dataset exporter with an engine of which only the interface is known: each evaluation yields fresh opaque outputs and is recorded with the inputs it saw, "
            "so that every cell of the text is traced to the variable and evaluation it belongs to.")


# --------------------------------------------------------------------------- C36
UNITS = (("NanoSeconds", "nanoseconds", 1.0), ("MicroSeconds", "microseconds", 1e-3), ("MilliSeconds", "milliseconds", 1e-6), ("Seconds", "seconds", 1e-9),
         ("Minutes", "minutes", 1e-9 / 60), ("Hours", "hours", 1e-9 / 3600))
NANV = float("nan")


def matrix(I, rows):
    return I.std.Vec([I.std.Vec([Cell(N.const(x) if not isinstance(x, Num) else x) for x in r], "double") for r in rows], "std::vector<double>")


def rows_of(I, v):
    return [[I.num(I.val(x)) for x in I.val(r).x] for r in I.val(v).x]


def numbers(I, v):
    return [I.num(I.val(x)) for x in I.val(v).x]


def demand_rows(got, want, what):
    if len(got) != len(want):
        raise Violated("%s: %d rows, specified %d" % (what, len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        if len(g) != len(w):
            raise Violated("%s: row %d has %d values, specified %d" % (what, k + 1, len(g), len(w)))
        for j, (a, b) in enumerate(zip(g, w)):
            expect(a, b if isinstance(b, Num) else N.const(b), "%s: value %d of row %d" % (what, j + 1, k + 1))


def classify(e, o, tol):
    """'' | 'nonfinite' | 'accuracy' for concrete numbers."""
    if e != e and o != o or e == o:
        return ""
    d = e - o
    if d != d or abs(d) == INF:
        return "nonfinite"
    return "" if abs(d) < tol else "accuracy"


def number_of(I, t):
    t = t.v if t.__class__ is I.std.SStr else t
    if len(t) == 1 and t in I.atom_rev:
        return I.R(I.atom_rev[t])
    return N.const(float(t))


def c36(chk):
    I, p = chk.I, chk.p
    T = chk.thorough
    chk.rule("prepare", "preparing by a grid lists every combination of equally spaced samples of all inputs once; preparing from lines lists the values of each line in order, without header, comments and blank lines, and reads no more lines than asked for")
    chk.rule("run", "a run restarts the engine once per repetition, evaluates it once per row with the row's inputs and records inputs and outputs in row order; each repetition appends one time")
    chk.rule("errors", "every compared value is counted once: accuracy when the difference is finite and not below the tolerance, non-finite when it is not finite; all errors are both; values equal within the tolerance are none")
    chk.rule("mse", "the mean squared error averages the squares of exactly the accuracy errors")
    chk.rule("can", "errors are only computed when the obtained rows match the expected ones; otherwise counts are -1 and the mean squared error is nan")
    chk.rule("units", "names and conversion factors of the units")
    chk.rule("results", "the results report the name, the counts, the errors and the times, converted to the unit; the header lists the same columns")
    chk.rule("format", "tables list every result once, in order, horizontally or vertically")
    w = lambda n: chk.loc("Benchmark", n)

    # ---- prepare
    def grid(ni, values, sc):
        def f(I):
            m = Machine(I, ni, 1)
            held = [opaque("held", k, lo=-1.0, hi=1.0) for k in range(ni)]
            for v, h in zip(m.ins, held):
                I.call(v, "setValue", h)
            b = I.make("Benchmark", "b", m.e)
            invoke(I, b, "setExpected", ["vector"], matrix(I, [[9.0]]))
            invoke(I, b, "prepare", ["int", "Scope"], values, scope(I, sc))
            rows = rows_of(I, I.call(b, "getExpected"))
            if sc == EACH:
                ks = [values]
            else:
                k = 1
                while (k + 1) ** ni <= values:
                    k += 1
                ks = [k] if ni == 1 or k ** ni != values or k in (1, 2, 4, 8) else [k, k - 1]
            if not any(unmatched(rows, sampled(I, m, [True] * ni, k)) for k in ks):
                raise Violated("prepares %d rows %s, specified is the grid of %d samples of %d inputs" % (len(rows), show(rows[:6]), ks[0], ni))
            if m.log:
                raise Violated("preparing evaluates or restarts the engine")
        chk.obl("prepare", "Benchmark::prepare", "%d inputs, %d values for %s" % (ni, values, sc), f, where=w("prepare"))
    for ni in (1, 2, 3):
        for v in (1, 2, 3, 4) if ni < 3 else (1, 2, 3):
            grid(ni, v, EACH)
    for ni, vs in ((1, (1, 2, 5, 7)), (2, (1, 2, 3, 4, 5, 8, 9, 10, 16)), (3, (1, 7, 8, 9, 26)), (4, (15, 16, 17))):
        for v in vs:
            grid(ni, v, ALL)
    for sc in (EACH, ALL):
        def none(I, sc=sc):
            m = Machine(I, 0, 1)
            b = I.make("Benchmark", "b", m.e)
            invoke(I, b, "prepare", ["int", "Scope"], 4, scope(I, sc))
        chk.obl("prepare", "Benchmark::prepare", "no inputs, %s" % sc, none, where=w("prepare"))

        def noengine(I, sc=sc):
            b = I.make("Benchmark")
            expect_throw(I, lambda: invoke(I, b, "prepare", ["int", "Scope"], 4, scope(I, sc)), "preparing without engine")
        chk.obl("prepare", "Benchmark::prepare", "no engine, %s" % sc, noengine, where=w("prepare"))

    def num(c):
        return opaque("given", c, lo=-9, hi=9) if isinstance(c, int) else N.const(c)

    def reader(name, lines, want, n=None, error=False):
        def f(I):
            src = "\n".join(l if isinstance(l, str) else " ".join(text(I, num(c)) for c in l) for l in lines)
            for tail in ("", "\n"):
                b = I.make("Benchmark")
                invoke(I, b, "setExpected", ["vector"], matrix(I, [[9.0]]))
                s = Stream("istringstream", src + tail)

                def go():
                    if n is None:
                        invoke(I, b, "prepare", ["istream"], s)
                    else:
                        invoke(I, b, "prepare", ["istream", "long"], s, n)
                if error:
                    expect_throw(I, go, "preparing from %s" % show(src))
                else:
                    go()
                    demand_rows(rows_of(I, I.call(b, "getExpected")), [[num(c) for c in r] for r in want], "prepared from %s" % show(src))
        chk.obl("prepare", "Benchmark::prepare", name, f, where=w("prepare"))
    reader("lines", [[1, 2], [3, 4]], [[1, 2], [3, 4]])
    reader("a header", ["in1 out1", [1, 2], [3, 4]], [[1, 2], [3, 4]])
    reader("comments and blank lines", ["in1 out1", "# 5 6", [1, 2], "", "  ", [3, 4], "#", [5, 6]], [[1, 2], [3, 4], [5, 6]])
    reader("indented comments", ["in1 out1", "  # 5 6", [1, 2], "\t#", [3, 4]], [[1, 2], [3, 4]])
    reader("an indented comment first", [" # 5 6", [1, 2]], [[1, 2]])
    reader("surrounding space", ["  1.5\t2.5 ", " -1.0 nan", "inf -inf"], [[1.5, 2.5], [-1.0, NANV], [INF, -INF]])
    reader("nothing", [], [])
    for n in (0, 1, 2, 3, 4, 9, -1, -7):
        reader("at most %d lines" % n, [[1, 2], [3, 4], [5, 6]], [[1, 2], [3, 4], [5, 6]][:n if n >= 0 else 9], n=n)
        reader("at most %d lines and a header" % n, ["x y", [1, 2], [3, 4], [5, 6]], [[1, 2], [3, 4], [5, 6]][:max(0, n - 1) if n >= 0 else 9], n=n)
    reader("text later", ["x", [1], "abc"], None, error=True)
    reader("a second header", ["x", "y", [1]], None, error=True)

    # ---- run
    def run(ni, no, nrows, extra, times, earlier=0, again=False, disabled=(), locked=()):
        def f(I):
            m = Machine(I, ni, no, disabled=disabled, locked=locked, ranges=[(-9.0, 9.0)] * ni)
            b = I.make("Benchmark", "b", m.e)
            data = [[opaque("e", r, c, lo=-9, hi=9) for c in range(ni + extra)] for r in range(nrows)]
            invoke(I, b, "setExpected", ["vector"], matrix(I, data))
            before = [N.const(float(10 + k)) for k in range(earlier)]
            invoke(I, b, "setTimes", ["vector"], I.std.Vec([Cell(x) for x in before], "double"))
            invoke(I, b, "setObtained", ["vector"], matrix(I, [[9.0] * 3] * 2))
            got = None
            for _ in range(2 if again else 1):
                m.log, m.given = [], []
                if times is None:
                    I.call(b, "runOnce")
                else:
                    got = numbers(I, I.call(b, "run", times))
            n = 1 if times is None else times
            if got is not None and len(got) != n:
                raise Violated("running %d times returns %d times" % (n, len(got)))
            want = []
            for t in range(n):
                want.append(("restart",))
                want += [("process", r[:ni]) for r in data]
            if [r[0] for r in m.log] != [r[0] for r in want]:
                raise Violated("running %d times over %d rows does %s" % (n, nrows, " ".join(r[0] for r in m.log)))
            for g, x in zip(m.log, want):
                if g[0] == "process":
                    for k, (a, c) in enumerate(zip(g[1], x[1])):
                        expect(a, c, "input %d in an evaluation" % (k + 1))
            if n:
                last = m.given[len(m.given) - nrows:]
                demand_rows(rows_of(I, I.call(b, "getObtained")), [r[:ni] + y for r, y in zip(data, last)], "obtained")
            demand_rows(rows_of(I, I.call(b, "getExpected")), data, "expected, after the run")
            ts = numbers(I, I.call(b, "getTimes"))
            if len(ts) != earlier + n * (2 if again else 1):
                raise Violated("after %d runs, %d times are stored" % (earlier + n * (2 if again else 1), len(ts)))
            for k, (a, c) in enumerate(zip(ts, before)):
                expect(a, c, "time %d" % (k + 1))
        chk.obl("run", "Benchmark::" + ("runOnce" if times is None else "run"), "%d inputs, %d outputs, %d rows of %d values, %s times, %d earlier%s%s" % (
            ni, no, nrows, ni + extra, times, earlier, ", again" if again else "", ", disabled %s" % (disabled,) if disabled else ""), f, where=w("run"))
    for ni, no in ((1, 1), (2, 1), (1, 2), (3, 2), (0, 1), (2, 0)):
        for nrows in (0, 1, 3):
            for extra in sorted({0, 1, no}):
                run(ni, no, nrows, extra, 1)
    for d in ((0,), (1,), (0, 1), (2,), (3,), (0, 3), (0, 1, 2, 3)):
        run(2, 2, 2, 2, 2, disabled=d)
    for times in (None, 0, 1, 2, 3):
        for earlier in (0, 2):
            run(2, 2, 2, 2, times, earlier)
            run(2, 2, 2, 2, times, earlier, True)

    def few(I):
        m = Machine(I, 2, 1)
        b = I.make("Benchmark", "b", m.e)
        invoke(I, b, "setExpected", ["vector"], matrix(I, [[1.0, 2.0, 3.0], [1.0]]))
        expect_throw(I, lambda: I.call(b, "run", 1), "running with a row of too few values")
    chk.obl("run", "Benchmark::run", "too few values", few, where=w("run"))

    def nothing(I):
        b = I.make("Benchmark")
        expect_throw(I, lambda: I.call(b, "run", 1), "running without engine")
        expect_throw(I, lambda: I.call(b, "runOnce"), "running once without engine")
        expect_throw(I, lambda: invoke(I, b, "results", []), "results without engine")
    chk.obl("run", "Benchmark::run", "no engine", nothing, where=w("run"))

    def reset(I):
        m = Machine(I, 1, 1)
        b = I.make("Benchmark", "b", m.e)
        invoke(I, b, "setExpected", ["vector"], matrix(I, [[1.0, 2.0]]))
        invoke(I, b, "setObtained", ["vector"], matrix(I, [[1.0, 2.0]]))
        invoke(I, b, "setTimes", ["vector"], I.std.Vec([Cell(N.const(1.0))], "double"))
        I.call(b, "reset")
        demand_rows(rows_of(I, I.call(b, "getExpected")), [[1.0, 2.0]], "expected, after reset")
        if rows_of(I, I.call(b, "getObtained")) or numbers(I, I.call(b, "getTimes")):
            raise Violated("reset keeps obtained values or times")
        if I.get(b, "getName") != "b" or I.val(I.call(b, "getEngine")) is not m.e:
            raise Violated("reset changes the name or engine")
    chk.obl("run", "Benchmark::reset", "", reset, where=w("reset"))

    # ---- errors
    E_ = [(1.0, 1.0), (1.0, 1.0625), (1.0, 1.25), (1.0, 1.5), (1.0, 0.75), (1.0, -3.0), (0.0, -0.0), (NANV, NANV), (NANV, 1.0), (1.0, NANV), (INF, INF), (-INF, -INF), (INF, -INF),
          (INF, 1.0), (1.0, -INF), (NANV, INF), (1e308, -1e308), (2.0, 4.0), (-2.0, 2.0)]

    def bench(I, ni, no, pairs, tol):
        """pairs: one list per output; rows are formed from them"""
        m = Machine(I, ni, no)
        b = I.make("Benchmark", "b", m.e, N.const(tol))
        n = len(pairs[0]) if pairs else 0
        ex = [[float(r)] * ni + [pairs[y][r][0] for y in range(no)] for r in range(n)]
        ob = [[float(-r - 5)] * ni + [pairs[y][r][1] for y in range(no)] for r in range(n)]
        invoke(I, b, "setExpected", ["vector"], matrix(I, ex))
        invoke(I, b, "setObtained", ["vector"], matrix(I, ob))
        return m, b

    def count(pairs, kind, tol):
        return sum(1 for e, o in pairs if classify(e, o, tol) and kind in ("all", classify(e, o, tol)))

    def mse(pairs, tol):
        d = [(e - o) ** 2 for e, o in pairs if classify(e, o, tol) == "accuracy"]
        return sum(d) / len(d) if d else 0.0

    def errs(name, ni, pairs, tol):
        no = len(pairs)

        def f(I):
            m, b = bench(I, ni, no, pairs, tol)
            if not I.truth(I.get(b, "canComputeErrors")):
                raise Violated("errors cannot be computed")
            flat = [x for l in pairs for x in l]
            which = [(None, flat)] + [(y, pairs[y]) for y in range(no)]
            for y, ps in which:
                v = None if y is None else m.outs[y]
                what = "all outputs" if y is None else "output %d" % (y + 1)
                for kind, fn, en in (("all", "allErrors", "All"), ("nonfinite", "nonFiniteErrors", "NonFinite"), ("accuracy", "accuracyErrors", "Accuracy")):
                    c = count(ps, kind, tol)
                    k = enum(I, "Benchmark::ErrorType", en)
                    gots = [invoke(I, b, fn, ["OutputVariable"], v), invoke(I, b, "numberOfErrors", ["ErrorType", "OutputVariable"], k, v)]
                    if y is None:
                        gots += [invoke(I, b, fn, []), invoke(I, b, "numberOfErrors", ["ErrorType"], k)]
                    for g in gots:
                        g = I.val(g)
                        if g != c:
                            raise Violated("%s of %s over %s: %s, specified %d" % (fn, what, ps, show(g), c))
                got = I.num(invoke(I, b, "meanSquaredError", ["OutputVariable"], v))
                expect(got, N.const(mse(ps, tol)), "mean squared error of %s over %s" % (what, ps))
                if y is None:
                    expect(I.num(invoke(I, b, "meanSquaredError", [])), N.const(mse(ps, tol)), "mean squared error over %s" % (ps,))
            # a variable that is not of this engine has no values
            other = I.make("OutputVariable")
            if I.val(invoke(I, b, "allErrors", ["OutputVariable"], other)) != 0:
                raise Violated("an output variable of no engine has errors")
        chk.obl("errors", "Benchmark::numberOfErrors", name, f, where=w("numberOfErrors"))
    for tol in (0.125, 0.5, 0.0):
        for e, o in E_:
            errs("expected %s obtained %s tolerance %s" % (e, o, tol), 1, [[(e, o)]], tol)
    if T:
        for a, b in itertools.product(E_, repeat=2):
            errs("%s and %s" % (a, b), 2, [[a], [b]], 0.125)
            errs("%s then %s" % (a, b), 0, [[a, b]], 0.125)
    import random
    rng = random.Random(chk.seed)
    for k in range(60 if T else 16):
        no, n = rng.choice(((1, 3), (2, 2), (3, 2), (2, 5)))
        errs("mixture %d" % k, rng.choice((0, 1, 2)), [[rng.choice(E_[:16] + E_[17:]) for _ in range(n)] for _ in range(no)], rng.choice((0.125, 0.5)))

    def opaque_errors(I):
        m = Machine(I, 1, 1)
        t = opaque("tolerance", lo=0.2, hi=0.3)
        b = I.make("Benchmark", "b", m.e, t)
        e = [opaque("e", k, lo=0.0, hi=0.1) for k in range(4)]
        o = [e[0], opaque("o", 1, lo=0.0, hi=0.1), opaque("o", 2, lo=1.0, hi=2.0), opaque("o", 3, lo=-5.0, hi=-4.0)]
        invoke(I, b, "setExpected", ["vector"], matrix(I, [[0.0, x] for x in e]))
        invoke(I, b, "setObtained", ["vector"], matrix(I, [[0.0, x] for x in o]))
        for fn, c in (("allErrors", 2), ("accuracyErrors", 2), ("nonFiniteErrors", 0)):
            g = I.val(invoke(I, b, fn, []))
            if g != c:
                raise Violated("%s is %s, specified %d" % (fn, show(g), c))
        d2, d3 = N.sub(e[2], o[2]), N.sub(e[3], o[3])
        expect(I.num(invoke(I, b, "meanSquaredError", [])), N.div(N.add(N.mul(d2, d2), N.mul(d3, d3)), N.const(2.0)), "mean squared error")
    chk.obl("mse", "Benchmark::meanSquaredError", "any values", opaque_errors, where=w("meanSquaredError"))

    def cannot(name, ex, ob, ni=1, no=1, engine=True):
        def f(I):
            m = Machine(I, ni, no)
            b = I.make("Benchmark", "b", m.e if engine else None)
            invoke(I, b, "setExpected", ["vector"], matrix(I, ex))
            invoke(I, b, "setObtained", ["vector"], matrix(I, ob))
            if I.truth(I.get(b, "canComputeErrors")):
                raise Violated("errors can be computed")
            for fn in ("allErrors", "nonFiniteErrors", "accuracyErrors"):
                if I.val(invoke(I, b, fn, [])) != -1 or I.val(invoke(I, b, fn, ["OutputVariable"], m.outs[0])) != -1:
                    raise Violated("%s is not -1" % fn)
            for g in (invoke(I, b, "meanSquaredError", []), invoke(I, b, "meanSquaredError", ["OutputVariable"], m.outs[0])):
                if not I.num(g).only_nan():
                    raise Violated("the mean squared error is %s" % show(I.num(g)))
        chk.obl("can", "Benchmark::canComputeErrors", name, f, where=w("canComputeErrors"))
    cannot("no engine", [[1.0, 2.0]], [[1.0, 2.0]], engine=False)
    cannot("no expected", [], [[1.0, 2.0]])
    cannot("no obtained", [[1.0, 2.0]], [])
    cannot("fewer obtained", [[1.0, 2.0], [1.0, 2.0]], [[1.0, 2.0]])
    cannot("more obtained", [[1.0, 2.0]], [[1.0, 2.0], [1.0, 2.0]])
    cannot("only inputs expected", [[1.0]], [[1.0, 2.0]])
    cannot("more columns expected", [[1.0, 2.0, 3.0]], [[1.0, 2.0]])
    cannot("other engine", [[1.0, 2.0, 3.0]], [[1.0, 2.0, 3.0]])
    cannot("other engine, fewer", [[1.0, 2.0]], [[1.0, 2.0]], no=2)

    # ---- units
    for n, s, fac in UNITS:
        def unit(I, n=n, s=s, fac=fac):
            k = enum(I, "Benchmark::TimeUnit", n)
            t = I.val(I.scall(FLN + "Benchmark::stringOf", k))
            if (t.v if t.__class__ is I.std.SStr else t) != s:
                raise Violated("%s is called %s" % (n, show(t)))
            expect(I.num(I.val(I.scall(FLN + "Benchmark::factorOf", k))), N.const(fac), "factor of " + n)
            x = opaque("time", lo=10.0, hi=11.0)
            for n2, _, fac2 in UNITS:
                got = I.num(I.val(I.scall(FLN + "Benchmark::convert", x, k, enum(I, "Benchmark::TimeUnit", n2))))
                expect(got, N.mul(x, N.const(fac2 / fac)), "%s to %s" % (n, n2))
        chk.obl("units", "Benchmark::convert", n, unit, where=w("convert"))

    # ---- results
    def string(I, t):
        t = I.val(t)
        return t.v if t.__class__ is I.std.SStr else t

    def results(ni, no, blocks, pairs, times, unit, y, include, direct):
        def f(I):
            tol = 0.125
            m, b = bench(I, ni, no, pairs, tol) if pairs else (Machine(I, ni, no), None)
            if b is None:
                b = I.make("Benchmark", "b", m.e, N.const(tol))
                invoke(I, b, "setExpected", ["vector"], matrix(I, [[1.0] * ni] * 3))
            for v, hi in zip(m.outs, (10.0, 30.0, 6.0)):
                I.call(v, "setRange", -10.0, hi)
            for n in blocks:
                rb = I.make("RuleBlock")
                for _ in range(n):
                    I.call(rb, "addRule", I.make("Rule"))
                I.call(m.e, "addRuleBlock", rb)
            I.call(b, "setName", "the name")
            ts = [1000.0 * (k + 1) ** 2 for k in range(times)]
            invoke(I, b, "setTimes", ["vector"], I.std.Vec([Cell(N.const(t)) for t in ts], "double"))
            u = enum(I, "Benchmark::TimeUnit", unit)
            if direct:
                r = invoke(I, b, "results", ["TimeUnit", "bool"], u, include)
            else:
                r = invoke(I, b, "results", ["OutputVariable", "TimeUnit", "bool"], None if y is None else m.outs[y], u, include)
            got = [(string(I, x.first), string(I, x.second)) for x in [I.val(z) for z in r.x]]
            keys = [k for k, _ in got]
            if len(set(keys)) != len(keys):
                raise Violated("a column occurs twice: %s" % keys)
            d = dict(got)
            fac = dict((n, f_) for n, _, f_ in UNITS)[unit]
            n_rows = len(pairs[0]) if pairs else 3
            want = {"name": "the name", "inputs": ni, "outputs": no, "ruleBlocks": len(blocks), "rules": sum(blocks), "runs": times, "evaluations": n_rows, "units": dict((n, s) for n, s, _ in UNITS)[unit]}
            if times:
                want["sum(t)"] = sum(ts) * fac
                mean = sum(ts) / times
                want["mean(t)"] = mean * fac
                want["sd(t)"] = (sum((t - mean) ** 2 for t in ts) / (times - 1)) ** .5 * fac if times > 1 else 0.0
            if pairs:
                sel = list(range(no)) if y is None else [y]
                ps = [x for k in sel for x in pairs[k]]
                his = [(10.0, 30.0, 6.0)[k] + 10.0 for k in sel]
                want.update({"outputVariable": ",".join("out%d" % (k + 1) for k in sel), "range": sum(his) / len(his), "tolerance": tol, "errors": count(ps, "all", tol),
                             "nfErrors": count(ps, "nonfinite", tol), "accErrors": count(ps, "accuracy", tol), "rmse": mse(ps, tol) ** .5,
                             "nrmse": sum(mse(pairs[k], tol) ** .5 / h for k, h in zip(sel, his)) / sum(1 / h for h in his)})
            elif any(k in d for k in ("errors", "rmse", "accErrors", "nfErrors")):
                raise Violated("errors are reported although they cannot be computed")
            for k in range(times):
                if include:
                    want["t%d" % (k + 1)] = ts[k] * fac
                elif "t%d" % (k + 1) in d:
                    raise Violated("times are included")
            for k, v in want.items():
                if k not in d:
                    raise Violated("no %s in the results %s" % (k, keys))
                if isinstance(v, str):
                    if d[k] != v:
                        raise Violated("%s is %s, specified %s" % (k, show(d[k]), v))
                elif isinstance(v, int):
                    if d[k] != str(v):
                        raise Violated("%s is %s, specified %d" % (k, show(d[k]), v))
                else:
                    # printed numbers are rounded to some decimals
                    g = number_of(I, d[k])
                    tolerance = 0.5 * 10 ** -3 if k not in ("rmse", "nrmse") else 1e-6 * abs(v)
                    if unit == "NanoSeconds" and k.startswith(("sum(", "t")) and k != "tolerance":
                        tolerance = 0.5
                    if g.lo > v + tolerance * 1.01 + 1e-9 or g.hi < v - tolerance * 1.01 - 1e-9 or g.only_nan():
                        raise Violated("%s is %s, specified %s" % (k, show(g), v))
            # the header has the same columns
            h = I.make("Benchmark")
            hs = [string(I, x) for x in I.val(I.call(h, "header", times, bool(pairs))).x]
            if include and hs != keys:
                raise Violated("the header is %s but the columns are %s" % (hs, keys))
        chk.obl("results", "Benchmark::results", "%d inputs, %d outputs, blocks %s, %s, %d times, %s, variable %s, times %s%s" % (ni, no, blocks, "errors" if pairs else "no errors", times, unit, y, include, ", direct" if direct else ""), f, where=w("results"))
    P1 = [[(1.0, 1.5), (1.0, 1.0), (NANV, 2.0)]]
    P2 = [[(1.0, 1.5), (2.0, 5.0), (1.0, INF)], [(1.0, 1.0), (1.0, 3.0), (1.0, 1.0625)]]
    P3 = [P2[0], P2[1], [(0.0, 0.0)] * 3]
    for n, _, _ in UNITS:
        results(1, 1, (2,), P1, 3, n, None, True, True)
        results(2, 2, (1, 3), P2, 2, n, 1, True, False)
        results(1, 1, (), None, 2, n, None, True, True)
    for times in (0, 1, 2, 4):
        for include in (True, False):
            results(2, 2, (1, 3), P2, times, "NanoSeconds", None, include, True)
            results(1, 3, (0,), P3, times, "MicroSeconds", None, include, False)
    for y in (None, 0, 1, 2):
        results(1, 3, (1,), P3, 1, "MicroSeconds", y, True, False)

    # ---- format
    rs = [("a", "1"), ("bb", "2.5"), ("c", "x y")]
    for n in (0, 1, 2, 3):
        for shape in ("Horizontal", "Vertical"):
            for content in ("Header", "Body", "HeaderAndBody"):
                for delim in ("\t", ", "):
                    def fmt(I, n=n, shape=shape, content=content, delim=delim):
                        b = I.make("Benchmark")
                        v = I.std.Vec([I.std.Pair(Cell(I.std.SStr(a)), Cell(I.std.SStr(c))) for a, c in rs[:n]], "std::pair<std::string, std::string>")
                        t = I.val(invoke(I, b, "format", ["vector", "Shape", "Contents", "string"], v, enum(I, "Benchmark::TableShape", shape), enum(I, "Benchmark::TableContents", content), I.std.SStr(delim)))
                        t = t.v if t.__class__ is I.std.SStr else t
                        a, c = [x for x, _ in rs[:n]], [x for _, x in rs[:n]]
                        if shape == "Vertical":
                            lines = [delim.join(([x] if content != "Body" else []) + ([y] if content != "Header" else [])) for x, y in zip(a, c)]
                        else:
                            lines = ([delim.join(a)] if content != "Body" else []) + ([delim.join(c)] if content != "Header" else [])
                        if t != "\n".join(lines):
                            raise Violated("the table is %r, specified %r" % (t, "\n".join(lines)))
                    chk.obl("format", "Benchmark::format", "%d results, %s, %s, delimiter %r" % (n, shape, content, delim), fmt, where=w("format"))
    return ("Interprets Benchmark with an engine of which only the interface is known (every evaluation is recorded and yields fresh opaque outputs) and with tables of values from every class of comparison "
            "(equal, within and outside the tolerance, infinite, nan).")
