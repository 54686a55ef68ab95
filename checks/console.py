"""C38: the command line (src/Console.cpp), driven through Console::main with argument lists, input files and key strokes."""
import re
from flai.check import AnalysisBroken, show, Violated, Undecided, CppThrow
from flai.interp import Cell
from flai.stdlib import ElPtr, Stream
from .fuzzy import FLN
from .texts import DOC
from .data import invoke, enum, scope

SMALL = """Engine: small
InputVariable: u
  enabled: true
  range: 0.000 4.000
  lock-range: false
  term: lo Ramp 4.000 0.000
  term: hi Ramp 0.000 4.000
InputVariable: v
  enabled: true
  range: -1.000 1.000
  lock-range: false
  term: any Rectangle -9.000 9.000
  term: up Ramp -1.000 1.000
OutputVariable: y
  enabled: true
  range: 0.000 10.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedAverage TakagiSugeno
  default: nan
  lock-previous: false
  term: one Constant 1.000
  term: lin Linear 1.000 2.000 3.000
OutputVariable: z
  enabled: true
  range: 0.000 10.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedSum TakagiSugeno
  default: nan
  lock-previous: true
  term: two Constant 2.000
RuleBlock: 
  enabled: true
  conjunction: Minimum
  disjunction: Maximum
  implication: AlgebraicProduct
  activation: General
  rule: if u is lo and v is any then y is one
  rule: if u is hi and v is any then y is lin
  rule: if v is up then z is two
"""
SIZES = {"small.fll": SMALL}
IMPORTERS = {"fll": "Fll", "fis": "Fis", "fcl": "Fcl"}
EXPORTERS = {"fll": "Fll", "fis": "Fis", "fcl": "Fcl", "cpp": "Cpp", "java": "Java"}


def s_(t):
    return t.v if hasattr(t, "v") else t


def main(I, *args, keys=None):
    """Run the command line: (exit code, everything written to the standard output)."""
    argv = I.std.Vec([Cell(a) for a in ("fuzzylite",) + args] + [Cell(None)], "const char *")
    del I.out[:]
    if keys is not None:
        left = [ord(c) for c in keys]
        I.hooks[FLN + "Console::readCharacter"] = lambda I, this, a, n: left.pop(0) if left else -1
    else:
        def no(I, this, a, n):
            raise Violated("the command waits for keys to be pressed")
        I.hooks[FLN + "Console::readCharacter"] = no
    try:
        r = I.val(I.scall(FLN + "Console::main", len(args) + 1, ElPtr(argv, 0)))
    finally:
        I.hooks.pop(FLN + "Console::readCharacter", None)
    return int(r), "".join(I.out)


def fresh(I):
    I.scall(FLN + "fuzzylite::setDecimals", 3)
    I.ticks = 5000          # nanoseconds every evaluation takes


def load(I, fmt, t):
    return I.val(I.call(I.make(IMPORTERS[fmt] + "Importer"), "fromString", t))


def converted(I, fmt, t, to):
    return s_(I.get(I.make(EXPORTERS[to] + "Exporter"), "toString", load(I, fmt, t)))


def sources(I):
    """An engine in each of the formats that can be read."""
    r = {("controller", f.lower()): t for f, t in DOC.items()}
    e = load(I, "fll", SMALL)
    for f in IMPORTERS:
        r[("small", f)] = s_(I.get(I.make(EXPORTERS[f] + "Exporter"), "toString", e))
    return r


def lines_equal(a, b, what):
    if a == b:
        return
    x, y = a.split("\n"), b.split("\n")
    for k, (p, q) in enumerate(zip(x, y)):
        if p != q:
            raise Violated("%s: line %d is %s, specified %s" % (what, k + 1, show(p), show(q)))
    more = (x if len(x) > len(y) else y)[min(len(x), len(y)):]
    raise Violated("%s has %d lines, specified %d, the first one that differs is %s" % (what, len(x), len(y), show(more[0])))


def c38(chk):
    I, p = chk.I, chk.p
    if FLN + "Console" not in p.cls:
        raise AnalysisBroken("no class Console")
    chk.rule("convert", "converting writes exactly the export of the imported engine, in the formats named by the options or the file extensions, to the file named or the standard output, with the decimals asked for")
    chk.rule("data", "exporting data writes exactly the dataset of the engine for the values, scope, input file, header and inputs asked for")
    chk.rule("examples", "the built-in examples are ready engines, are written as any engine, and are what the named examples are")
    chk.rule("reject", "wrong or missing options, formats, files and texts end in failure with a message and without writing a result")
    chk.rule("interactive", "an interactive session evaluates the engine exactly when asked or when all inputs are given, with the inputs typed since, keeping what is not given; restarting and discarding forget them")
    chk.rule("help", "without arguments the usage names every option and the command ends in success")
    chk.rule("benchmarks", "benchmarking writes one row per engine listed, in order, each for the engine and its own dataset, under the header")
    chk.rule("export all", "exporting all examples writes every example as the export of its engine")
    w = chk.loc("Console", "main")

    def ok(r, out=None):
        if r[0] != 0:
            raise Violated("the command fails: %s" % show(r[1][-200:]))
        if out is not None:
            lines_equal(r[1], out, "the standard output")

    def done(I, name):
        if name not in I.files:
            raise Violated("no file %s is written" % name)
        return I.files[name]

    # ---- convert
    def convert(key, to, how, nd):
        def f(I):
            fresh(I)
            src = sources(I)[key]
            fr = key[1]
            args = {"pair": ("my.dir/in." + fr, "my.out/out." + to), "named": ("-o", "out." + to, "-i", "in." + fr),
                    "formats": ("-of", to, "-i", "in.txt", "-o", "out.dat", "-if", fr), "stdout": ("-i", "in." + fr, "-of", to),
                    "override": ("-i", "in.fll" if fr != "fll" else "in.fis", "-if", fr, "-o", "out.fll" if to != "fll" else "out.fis", "-of", to), "extensionless": ("-i", "in", "-if", fr, "-o", "out", "-of", to)}[how]
            if how == "override":
                inp, outp = args[1], args[-3]
            else:
                inp, outp = {"pair": (args[0], args[-1]), "formats": ("in.txt", "out.dat"), "extensionless": ("in", "out")}.get(how, ("in." + fr, "out." + to))
            I.files[inp] = src
            if nd is not None:
                args += ("-decimals", str(nd))
            r = main(I, *args)
            if nd is not None:
                I.scall(FLN + "fuzzylite::setDecimals", nd)
            want = converted(I, fr, src + "\n", to)
            if how == "stdout":
                ok(r, want)
            else:
                ok(r, "")
                lines_equal(done(I, outp), want, "the file written")
                if set(I.files) != {inp, outp}:
                    raise Violated("other files are written: %s" % (set(I.files) - {inp, outp}))
            lines_equal(I.files[inp], src, "the input file")
        chk.obl("convert", "Console::process", "%s.%s to %s, %s%s" % (key[0], key[1], to, how, "" if nd is None else ", %d decimals" % nd), f, where=w)
    for fr in IMPORTERS:
        for to in EXPORTERS:
            for how in ("pair", "named", "formats", "stdout", "override", "extensionless"):
                convert(("controller", fr), to, how, None)
            for nd in (6, 1):
                convert(("small", fr), to, "stdout" if nd == 1 else "named", nd)

    # ---- data
    def wanted(I, t, inputs=None, values=None, sc="EachVariable", header=True, ins=True):
        e = load(I, "fll", t)
        x = I.make("FldExporter", " ")
        I.call(x, "setExportHeader", header)
        I.call(x, "setExportInputValues", ins)
        o = Stream("ostringstream")
        if inputs is not None:
            invoke(I, x, "write", ["Engine *", "ostream", "istream"], e, o, Stream("istringstream", inputs))
        else:
            invoke(I, x, "write", ["Engine *", "ostream", "int", "ScopeOfValues"], e, o, values, scope(I, sc))
        return o.buf
    D = "u v\n0.5 0.25\n1.5 -0.75\n# a comment\n\n9 -3\nnan 0.5\n"

    def data(name, opts, **kw):
        for to in ("out.fld", None):
            def f(I):
                fresh(I)
                I.files["small.fll"] = SMALL
                I.files["values.txt"] = D
                r = main(I, "-i", "small.fll", *(("-o", to) if to else ("-of", "fld")), *opts)
                want = wanted(I, SMALL, **kw)
                if to:
                    ok(r, "")
                    lines_equal(done(I, to), want, "the dataset")
                else:
                    ok(r, want)
            chk.obl("data", "Console::process", "%s, to %s" % (name, to or "standard output"), f, where=w)
    data("from a file", ("-d", "values.txt"), inputs=D)
    for k, n in ((1, 1), (4, 4), (9, 9), (10, 10)):
        data("%d values" % k, ("-values", str(k)), values=n)
        data("%d values of each" % k, ("-values", str(k), "-scope", "EachVariable"), values=n)
        data("%d values of all" % k, ("-scope", "AllVariables", "-values", str(k)), values=n, sc="AllVariables")
    for h in (True, False):
        for i in (True, False):
            b = {True: "true", False: "false"}
            data("header %s, inputs %s" % (h, i), ("-values", "2", "-dheader", b[h], "-dinputs", b[i]), values=2, header=h, ins=i)
            data("from a file, header %s, inputs %s" % (h, i), ("-dinputs", b[i], "-dheader", b[h], "-d", "values.txt"), inputs=D, header=h, ins=i)
    for k in (1, 7, 100, 1000, 1024, 1025, 2000, 4096, 65536, 100000, 1000000):
        for sc in (None, "EachVariable", "AllVariables"):
            def asked(I, k=k, sc=sc):
                """The number and scope that reach the exporter, whatever the number."""
                fresh(I)
                I.files["small.fll"] = SMALL
                seen = []

                def hook(I, this, args, node):
                    seen.append([I.val(x) for x in args[2:]])
                I.hooks[FLN + "FldExporter::write"] = hook
                try:
                    ok(main(I, "-i", "small.fll", "-of", "fld", "-values", str(k), *(("-scope", sc) if sc else ())))
                finally:
                    I.hooks.pop(FLN + "FldExporter::write", None)
                if len(seen) != 1 or len(seen[0]) < 2:
                    return False
                v = seen[0][0].lo if hasattr(seen[0][0], "lo") else seen[0][0]
                if v != k or seen[0][1] != scope(I, sc or "EachVariable"):
                    raise Violated("%s values with scope %s are asked for, but the data is exported for %s with scope %s" % (k, sc or "not given", v, seen[0][1]))
            chk.obl("data", "Console::process", "%d values, scope %s" % (k, sc or "not given"), asked, where=w)
    data("header only said", ("-values", "3", "-dheader", "false"), values=3, header=False)
    data("inputs only said", ("-values", "3", "-dinputs", "false"), values=3, ins=False)
    data("a file rather than values", ("-values", "3", "-d", "values.txt"), inputs=D)

    # ---- examples
    def example(I, fn):
        return I.val(I.scall(FLN + "Console::" + fn))
    TYPES = {"mamdani": "Mamdani", "takagiSugeno": "TakagiSugeno", "hybrid": "Hybrid"}
    SHAPE = {"mamdani": ("simple-dimmer", 1, 1, (3,)), "takagiSugeno": ("approximation", 1, 3, (10,)), "hybrid": ("tipper", 2, 2, (4, 4))}
    for fn in TYPES:
        def f(I, fn=fn):
            fresh(I)
            e = example(I, fn)
            if not I.truth(I.call(e, "isReady", None)):
                raise Violated("the example is not ready")
            if I.val(I.call(e, "type", None, None)) != enum(I, "Engine::Type", TYPES[fn]):
                raise Violated("the example is not of type %s" % TYPES[fn])
            n = SHAPE[fn]
            rb = [I.get(b, "numberOfRules") for b in I.get(e, "ruleBlocks").x and [I.val(c) for c in I.get(e, "ruleBlocks").x]]
            have = (s_(I.get(e, "getName")), I.get(e, "numberOfInputVariables"), I.get(e, "numberOfOutputVariables"), tuple(rb))
            if have != n:
                raise Violated("the example has name, inputs, outputs and rules %s, specified %s" % (have, n))
            for v in [I.val(x) for x in list(I.get(e, "inputVariables").x) + list(I.get(e, "outputVariables").x) + list(I.get(e, "ruleBlocks").x)]:
                if not I.truth(I.get(v, "isEnabled")):
                    raise Violated("the example has the disabled component %s" % show(s_(I.get(v, "getName"))))
            for b in [I.val(x) for x in I.get(e, "ruleBlocks").x]:
                for r in [I.val(x) for x in I.get(b, "rules").x]:
                    if not I.truth(I.get(r, "isLoaded")) or not I.truth(I.get(r, "isEnabled")):
                        raise Violated("the example has a rule that is not loaded or not enabled")
            t = s_(I.get(I.make("FllExporter"), "toString", e))
            lines_equal(converted(I, "fll", t, "fll"), t, "the example written, read and written")
            e2 = example(I, fn)
            if e2 is e:
                raise Violated("the same engine is given twice")
        chk.obl("examples", "Console::" + fn, "ready", f, where=chk.loc("Console", fn, 0))
    # sin(x)/x at the vertices of the example
    def approx(I):
        fresh(I)
        e = example(I, "takagiSugeno")
        import math
        for x in range(1, 10):
            I.call(I.call(e, "getInputVariable", 0), "setValue", float(x))
            I.call(e, "process")
            y = [I.num(I.call(I.call(e, "getOutputVariable", k), "getValue")) for k in range(3)]
            v = [q.v if hasattr(q, "v") and q.v is not None else None for q in y]
            lo = [(q.lo, q.hi) for q in y]
            t = math.sin(x) / x
            if not (lo[1][0] - 1e-6 <= t <= lo[1][1] + 1e-6):
                raise Violated("trueValue at %d is within %s, specified %g" % (x, lo[1], t))
            if lo[0][1] < t - 0.06 or lo[0][0] > t + 0.06:
                raise Violated("outputFx at %d is within %s, specified about %g" % (x, lo[0], t))
    chk.obl("examples", "Console::takagiSugeno", "approximates sin(x)/x", approx, where=chk.loc("Console", "takagiSugeno", 0))
    for opt, fn in (("m", "mamdani"), ("mamdani", "mamdani"), ("t", "takagiSugeno"), ("ts", "takagiSugeno"), ("takagi-sugeno", "takagiSugeno")):
        for to in EXPORTERS:
            def f(I, opt=opt, fn=fn, to=to):
                fresh(I)
                r = main(I, "-example", opt, "-of", to)
                t = s_(I.get(I.make("FllExporter"), "toString", example(I, fn)))
                ok(r, converted(I, "fll", t, to))
            chk.obl("examples", "Console::process", "-example %s to %s" % (opt, to), f, where=w)

    def f(I):
        fresh(I)
        r = main(I, "-example", "m", "-o", "m.fld", "-values", "4")
        t = s_(I.get(I.make("FllExporter"), "toString", example(I, "mamdani")))
        ok(r, "")
        lines_equal(done(I, "m.fld"), wanted(I, t, values=4), "the dataset")
    chk.obl("examples", "Console::process", "-example m to fld", f, where=w)

    # ---- reject
    def reject(name, *args, keep=(), src=None, keys=None):
        def f(I):
            fresh(I)
            I.files["in.fll"] = SMALL
            I.files["bad.fll"] = SMALL.replace("Ramp 4.000", "Romp 4.000")
            I.files["values.txt"] = D
            I.files["bad.txt"] = D + "1 what\n"
            have = set(I.files)
            r = main(I, *args)
            if r[0] == 0:
                raise Violated("the command succeeds with %s, writing %s" % (" ".join(args), show(r[1][:200])))
            if not r[1].strip():
                raise Violated("the command fails without a message")
            for k in set(I.files) - have:
                if k not in keep and I.files[k].strip():
                    raise Violated("the file %s is written" % k)
        chk.obl("reject", "Console::main", name, f, where=w)
    reject("no output file or format", "-i", "in.fll", "-decimals", "3")
    reject("no input", "-o", "out.fll", "-of", "fll")
    reject("only one option", "-i", "in.fll")
    reject("only an output", "-o", "out.fll")
    reject("a value is missing", "-i", "in.fll", "-o")
    reject("a value is missing at the end", "-i", "in.fll", "-o", "out.fll", "-decimals")
    reject("three names", "in.fll", "out.fll", "x.fll")
    reject("unknown option", "-i", "in.fll", "-o", "out.fll", "-foo", "3")
    reject("unknown options of names", "in.fll", "out.fll", "-decimals", "3")
    reject("no such file", "-i", "none.fll", "-o", "out.fll")
    reject("no such file by names", "none.fll", "out.fll")
    reject("unknown input format", "-i", "in.fll", "-if", "txt", "-o", "out.fll")
    reject("unknown input extension", "values.txt", "out.fll")
    reject("no input extension", "-i", "in", "-of", "fll")
    reject("unknown output format", "-i", "in.fll", "-of", "txt")
    reject("unknown output extension", "in.fll", "out.txt")
    reject("no output extension", "in.fll", "out")
    reject("formats are case sensitive", "-i", "in.fll", "-of", "FLLX")
    reject("unknown example", "-example", "x", "-of", "fll")
    reject("nothing is imported from datasets", "-i", "values.txt", "-if", "fld", "-of", "fll")
    reject("an output that cannot be created", "in.fll", "/no/such/out.fll")
    reject("a text that does not import", "bad.fll", "out.fis")
    reject("unknown scope", "-i", "in.fll", "-of", "fld", "-values", "3", "-scope", "SomeVariables")
    reject("no such dataset", "-i", "in.fll", "-of", "fld", "-d", "none.txt")
    reject("values that are no number", "-i", "in.fll", "-of", "fld", "-values", "many")
    reject("decimals that are no number", "-i", "in.fll", "-of", "fll", "-decimals", "many")
    for k in ("benchmark", "benchmarks"):
        reject(k + " without enough parameters", k, "in.fll", "values.txt")
        reject(k + " without the engine", k, "none.fll", "values.txt", "1")
        reject(k + " without the dataset", k, "in.fll", "none.txt", "1")
        reject(k + " to a place that cannot be written", k, "in.fll", "values.txt", "1", "/no/such/out.tsv")
        reject(k + " with runs that are no number", k, "in.fll", "values.txt", "many")
    reject("benchmark of a text that does not import", "benchmark", "bad.fll", "values.txt", "1", "o.tsv", keep=("o.tsv",))

    # ---- help
    def f(I):
        fresh(I)
        for a in ((), ("whatever",)):
            r = main(I, *a)
            ok(r)
            for k in [s_(I.get(o, "key")) if False else s_(I.val(o.get("key"))) for o in (I.val(c) for c in I.get(I.make("Console"), "availableOptions").x)]:
                if not re.search(r"(?m)^%s\s+\S+\s+\S" % re.escape(k), r[1]):
                    raise Violated("the usage does not explain %s" % k)
    chk.obl("help", "Console::usage", "no arguments", f, where=chk.loc("Console", "usage"))

    def f(I):
        have = {s_(I.val(I.val(o).get("key"))) for o in I.get(I.make("Console"), "availableOptions").x}
        want = {"-i", "-if", "-o", "-of", "-example", "-decimals", "-d", "-values", "-scope", "-dheader", "-dinputs"}
        if have < want:
            raise Violated("the options %s are not available" % (want - have))
    chk.obl("help", "Console::availableOptions", "all options", f, where=chk.loc("Console", "availableOptions"))

    # ---- interactive
    def session(name, keys, evals, doc=None, opts=(), nin=2):
        """evals: list of evaluations, each the list of what the inputs hold, or None after a restart before it"""
        for to in ("out.fld", None):
            def f(I):
                fresh(I)
                I.files["in.fll"] = doc or SMALL
                r = main(I, "-i", "in.fll", *(("-o", to) if to else ("-of", "fld")), *opts, keys=keys)
                ok(r)
                got = [t for t in (done(I, to), r[1])] if to else [r[1]]
                e = load(I, "fll", doc or SMALL)
                no = I.get(e, "numberOfOutputVariables")
                want = []
                for ev in evals:
                    if ev == "restart":
                        I.call(e, "restart")
                        continue
                    for k, v in enumerate(ev):
                        I.call(I.call(e, "getInputVariable", k), "setValue", float(v))
                    I.call(e, "process")
                    want.append("\t".join(s_(I.val(I.scall(FLN + "Operation::str", I.num(I.call(I.call(e, "getOutputVariable", k), "getValue"))))) for k in range(no)))
                for t in got:
                    have = [l.strip() for l in re.findall(r"=\t(.*)", t)]
                    if have != want:
                        raise Violated("keys %r evaluate to %s, specified %s" % (keys, have, want))
                    if to is None or t is not r[1]:
                        h = s_(I.get(I.make("FldExporter", " "), "header", e))
                        if h not in t:
                            raise Violated("the names of the columns %r are not written" % h)
            chk.obl("interactive", "Console::interactive", "%s, to %s" % (name, to or "standard output"), f, where=chk.loc("Console", "interactive"))
    nan = float("nan")
    session("nothing", "Q", [])
    session("the end of the input", "", [])
    session("the end of transmission", "1 \x04", [])
    session("all inputs", "1 0.5 q", [(1, .5)])
    session("tabs and new lines", "1\t0.5\nq", [(1, .5)])
    session("several times", "1 0.5 2 -0.5 4 1 Q", [(1, .5), (2, -.5), (4, 1)])
    session("negative, exponent, infinity", "-1 5e-1 inf 0.25 q", [(-1, .5), (float("inf"), .25)])
    session("process without inputs", "PQ", [(nan, nan)])
    session("process with one", "1 PQ", [(1, nan)])
    session("keeping the last", "1 0.5 3 PQ", [(1, .5), (3, .5)])
    session("keeping all", "1 0.5 ppQ", [(1, .5), (1, .5), (1, .5)])
    session("an empty value keeps", "1 0.5  0.25 Q", [(1, .5), (1, .25)])
    session("what is no number keeps", "1 0.5 x 0.25 2 1y Q", [(1, .5), (1, .25), (2, .25)])
    session("discarding", "3 D1 0.5 Q", [(1, .5)])
    session("discarding what is being typed", "3 2d1 0.5 Q", [(1, .5)])
    session("discarding keeps the engine", "1 0.5 3 DPQ", [(1, .5), (1, .5)])
    session("restarting", "1 0.5 RPQ", [(1, .5), "restart", (nan, nan)])
    session("restarting forgets the inputs", "1 0.5 3 R2 1 Q", [(1, .5), "restart", (2, 1)])
    session("restarting forgets what is being typed", "1 0.5 3r2 1 Q", [(1, .5), "restart", (2, 1)])
    session("restarting twice", "1 0.5 rr PQ", [(1, .5), "restart", (nan, nan)])
    session("help", "1 H0.5 Q", [(1, .5)])
    session("help at first", "h1 0.5 ppQ", [(1, .5)] * 3)
    session("keys that are no text", "1 \x01\x020.5 q", [(1, .5)])
    session("after the end nothing is read", "1 0.5 q2 1 ", [(1, .5)])
    session("with decimals", "1 0.3333333 q", [(1, .3333333)], opts=("-decimals", "3"))
    ONE = SMALL.split("InputVariable: v")[0] + "OutputVariable: y" + SMALL.split("OutputVariable: y")[1].split("OutputVariable: z")[0].replace("2.000 3.000", "2.000") + \
        "RuleBlock: \n  enabled: true\n  conjunction: none\n  disjunction: none\n  implication: none\n  activation: General\n  rule: if u is lo then y is one\n  rule: if u is hi then y is lin\n"
    session("one input", "1 2 3 Q", [(1,), (2,), (3,)], doc=ONE)
    session("one input, processed", "1 pR2 pQ", [(1,), (1,), "restart", (2,), (2,)], doc=ONE)

    def f(I):
        fresh(I)
        I.files["in.fll"] = SMALL
        r = main(I, "-i", "in.fll", "-of", "fld", keys="hq")
        ok(r)
        for k in "RDPQH":
            if not re.search(r"(?m)^>?#\s+%s\s+\S" % k, r[1]):
                raise Violated("the help does not explain the key %s" % k)
    chk.obl("interactive", "Console::interactiveHelp", "the keys", f, where=chk.loc("Console", "interactiveHelp"))

    def bad(I):
        fresh(I)
        I.files["in.fll"] = SMALL.replace("conjunction: Minimum", "conjunction: none")
        r = main(I, "-i", "in.fll", "-of", "fld", keys="1 0.5 2 1 q")
        ok(r)
        if re.search(r"=\t[-\dn]", r[1]):
            raise Violated("values are written of an evaluation that fails")
        if r[1].count("Error") != 2:
            raise Violated("%d errors are told of two evaluations that fail" % r[1].count("Error"))
    chk.obl("interactive", "Console::interactive", "evaluations that fail", bad, where=chk.loc("Console", "interactive"))

    # ---- benchmarks
    FLD = "u v y z\n1 0.5 3.25 1.5\n2 1 1 2\n0 0 1 7\n3 0.5 0 0\n"
    OTHER = SMALL.replace("Engine: small", "Engine: other").replace("Constant 2.000", "Constant 3.000")
    FLD2 = "u v y z\n1 0.5 3.25 2.25\n"

    def row(t, header):
        c = t.split("\t")
        if len(c) != len(header):
            raise Violated("a row has %d columns under a header of %d" % (len(c), len(header)))
        return dict(zip(header, c))

    def expected(I, doc, fld, runs):
        e = load(I, "fll", doc)
        b = I.make("Benchmark", I.std.SStr(s_(I.get(e, "getName"))), e)
        invoke(I, b, "prepare", ["istream"], Stream("istringstream", fld))
        I.call(b, "run", runs)
        rs = invoke(I, b, "results", ["TimeUnit"], enum(I, "Benchmark::TimeUnit", "NanoSeconds"))
        return {s_(I.val(I.val(x).first)): s_(I.val(I.val(x).second)) for x in rs.x}

    def check_table(I, t, cases, runs):
        ls = [l for l in t.split("\n") if l.strip()]
        if not ls:
            raise Violated("nothing is written")
        h = ls[0].split("\t")
        if len(ls) != 1 + len(cases):
            raise Violated("%d rows are written for %d engines" % (len(ls) - 1, len(cases)))
        for l, (doc, fld) in zip(ls[1:], cases):
            r = row(l, h)
            x = expected(I, doc, fld, runs)
            if list(x) != h:
                raise Violated("the columns are %s, specified %s" % (h, list(x)))
            for k in h:
                if r[k] != x[k]:
                    raise Violated("%s of %s is %s, specified %s" % (k, r.get("name"), r[k], x[k]))
            for k in ("name", "errors", "rmse", "runs", "evaluations"):
                if k not in r:
                    raise Violated("there is no column %s" % k)
            if int(r["runs"]) != runs or int(r["evaluations"]) != len(fld.strip().split("\n")) - 1:
                raise Violated("%s runs of %s rows, specified %d of %d" % (r["runs"], r["evaluations"], runs, len(fld.strip().split("\n")) - 1))

    for runs in (1, 3):
        for to in ("out.tsv", None):
            def f(I, runs=runs, to=to):
                fresh(I)
                I.files.update({"a.fll": SMALL, "a.fld": FLD})
                r = main(I, "benchmark", "a.fll", "a.fld", str(runs), *((to,) if to else ()))
                ok(r)
                check_table(I, done(I, to) if to else r[1], [(SMALL, FLD)], runs)
            chk.obl("benchmarks", "Console::benchmark", "%d runs to %s" % (runs, to or "standard output"), f, where=chk.loc("Console", "benchmark"))
            for lists in (("a.fll\nb.fll\n", "a.fld\nb.fld\n"), ("  b.fll  \na.fll\nb.fll", "b.fld\n a.fld\nb.fld"), ("# the engines\na.fll\n\n#b.fll\nb.fll\n", "# the data\na.fld\n\n#b.fld\nb.fld\n"),
                          ("# none\n", "# none\n")):
                def f(I, runs=runs, to=to, lists=lists):
                    fresh(I)
                    I.files.update({"a.fll": SMALL, "a.fld": FLD, "b.fll": OTHER, "b.fld": FLD2, "e.txt": lists[0], "d.txt": lists[1]})
                    r = main(I, "benchmarks", "e.txt", "d.txt", str(runs), *((to,) if to else ()))
                    ok(r)
                    names = [l.strip()[0] for l in lists[0].split("\n") if l.strip() and not l.startswith("#")]
                    check_table(I, done(I, to) if to else r[1], [{"a": (SMALL, FLD), "b": (OTHER, FLD2)}[n] for n in names], runs)
                chk.obl("benchmarks", "Console::benchmarks", "%d runs of %r to %s" % (runs, lists[0], to or "standard output"), f, where=chk.loc("Console", "benchmarks"))
    # ---- all examples
    class Everywhere(dict):
        """Every file that is read has the same text."""
        def __init__(self, t):
            self.t, self.read = t, []

        def __contains__(self, k):
            return dict.__contains__(self, k) or k.startswith("from")

        def __getitem__(self, k):
            if k.startswith("from"):
                self.read.append(k)
                return self.t
            return dict.__getitem__(self, k)
    TINY = SMALL.split("InputVariable: v")[0] + "OutputVariable: y\n  enabled: true\n  range: 0.000 1.000\n  lock-range: false\n  aggregation: none\n  defuzzifier: WeightedAverage TakagiSugeno\n" \
        "  default: nan\n  lock-previous: false\n  term: one Constant 1.000\nRuleBlock: \n  enabled: true\n  conjunction: none\n  disjunction: none\n  implication: none\n  activation: General\n  rule: if u is lo then y is one\n"
    TINY = TINY.replace("small", "tiny")
    for fr, to in (("fll", "fll"), ("fll", "fis"), ("fll", "fcl"), ("fll", "cpp"), ("fll", "java"), ("fis", "fll"), ("fcl", "fis"), ("fll", "fld"), ("fll", "R")):
        if not chk.thorough and (fr, to) not in (("fll", "fis"), ("fcl", "fis"), ("fll", "cpp"), ("fll", "java"), ("fll", "R")):
            continue

        def f(I, fr=fr, to=to):
            fresh(I)
            t = converted(I, "fll", TINY, fr)
            I.files = Everywhere(t)
            if to == "fld":         # 1024 rows for every example are too many here
                I.hooks[FLN + "FldExporter::toString"] = lambda I, this, a, n: I.std.SStr("u y\n0 1\n")
            try:
                m = next(m for _, m in p.methods(FLN + "Console", "exportAllExamples", 4))
                I.invoke(m["u"], I.make("Console"), [fr, to, "from/here", "to/there/"], m["virt"])
            finally:
                I.hooks.pop(FLN + "FldExporter::toString", None)
            names = [re.match(r"from/here/+(.*)\.%s$" % fr, k) for k in I.files.read]
            if len(names) < 30 or not all(names):
                raise Violated("the files read are %s" % I.files.read[:5])
            names = [k.group(1) for k in names]
            if len(set(names)) != len(names):
                raise Violated("an example is exported twice")
            have = {re.sub("/+", "/", k): v for k, v in I.files.items()}
            if set(have) != {"to/there/%s.%s" % (k, to) for k in names}:
                raise Violated("the files written are %s" % sorted(set(have) ^ {"to/there/%s.%s" % (k, to) for k in names})[:3])
            x = None
            if to in EXPORTERS:
                x = converted(I, fr, t + "\n", to)
            for k in names:
                g = have["to/there/%s.%s" % (k, to)]
                if to == "fld":
                    lines_equal(g, "u y\n0 1\n", k)
                elif to in ("cpp", "java"):
                    if x not in g or g.count("{") != g.count("}") or not re.search(r"main\(.*\)\s*\{", g):
                        raise Violated("the program of %s is not the export of its engine" % k)
                    if to == "java" and not re.search(r"class %s\b" % re.escape(re.sub(r"\W", "", k.split("/")[-1])), g):
                        raise Violated("the class of %s has another name" % k)
                elif to == "R":
                    if k.split("/")[-1] + ".fld" not in g or "tiny" not in g:
                        raise Violated("the script of %s reads another dataset" % k)
                else:
                    lines_equal(g, x, k)
        chk.obl("export all", "Console::exportAllExamples", "from %s to %s" % (fr, to), f, where=chk.loc("Console", "exportAllExamples", 4))
    I.ticks = None
    return "Interprets Console::main over argument lists with files, standard output and key strokes modelled; what is written is compared with the export of the imported engine."
