"""C32: no hidden shared mutable state (AST effect queries, and history independence by interpretation)."""
import itertools
from flai import num as N
from flai.num import Num
from flai.check import AnalysisBroken, same, near, show, Violated, Undecided, CppThrow, Obj, INF
from flai.interp import Cell
from .fuzzy import FLN, expect, opaque
from .objects import Values, describe, demand_same, short, concrete, populate, KINDS
from .copies import rich_engine, outs, ins, blocks_of
from .terms import TERMS
from .params import text
from . import texts as TX

AMBIENT = {"rand", "srand", "rand_r", "random", "srandom", "drand48", "lrand48", "strtok", "setlocale", "time", "clock", "getenv", "setenv", "putenv", "unsetenv", "gmtime", "localtime",
           "ctime", "asctime", "signal", "clock_gettime", "gettimeofday", "getpid", "tmpnam", "fesetround", "feenableexcept", "std::set_terminate", "std::set_new_handler"}


def children(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x


def parts(f):
    """The trees of a function: body, constructor initialisers, default arguments."""
    for k, v in f.items():
        if k in ("params", "ov"):
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n, up=()):
    yield n, up
    for k, c in children(n):
        yield from walk(c, up + ((n, k),))


def is_const(t):
    """A type through which nothing can be changed: a value, or a reference or pointer to const."""
    t = t.strip()
    if t.endswith("&") or t.endswith("*") or t.endswith("*const"):
        return t.startswith("const ")
    return True


def writes(n, up):
    """May the use of a variable at n change it? (conservative in both directions only for aliases of elements)"""
    node = n
    i = len(up) - 1
    while i >= 0:
        p, k = up[i]
        kind = p.get("k")
        if kind == "l2r":
            t = node.get("t", "")
            return "*" in t and not t.startswith("const ") and alias(p, up[:i])
        if kind in ("mem", "mte", "bte", "upcast", "decay", "ccast", "dyn") or kind == "idx" and k == "a" or kind == "cast" or kind == "cond" and k in ("a", "b"):
            node = p if kind != "mte" else node
            i -= 1
            continue
        if kind in ("asg", "casg"):
            return k == "a"
        if kind == "un":
            if p["op"] in ("++", "--"):
                return True
            if p["op"] == "&":
                return alias(p, up[:i])
            if p["op"] == "*":
                node = p
                i -= 1
                continue
            return False
        if kind == "mcall":
            if k == "o":
                if p.get("const") or p.get("static"):
                    # an iterator or reference to the inside
                    return False
                return True
            return argument(p, node)
        if kind == "op":
            a = p["args"]
            if p.get("mem") and a and a[0] is node:
                return not const_member(p)
            return argument(p, node)
        if kind in ("call", "ctor", "pcall"):
            return argument(p, node)
        return False
    return False


def const_member(p):
    # operators of std classes that only read
    return p["op"] in ("==", "!=", "<", ">", "<=", ">=", "()", "bool") or p.get("rt", "").startswith("const ") or p["op"] == "[]" and "const" in p.get("rt", "")


def alias(n, up):
    """The address (or pointer) n is handed to something that may write through it."""
    if not up:
        return False
    p, k = up[-1]
    kind = p.get("k")
    if kind in ("upcast", "cast", "cond", "mte", "bte"):
        return alias(p, up[:-1])
    if kind in ("mcall", "call", "ctor", "op"):
        if kind == "mcall" and k == "o":
            return not p.get("const")
        return argument(p, n)
    return False


def argument(p, node):
    pt = p.get("pt")
    args = p.get("args", [])
    off = 1 if p.get("k") == "op" and p.get("mem") else 0
    for j, a in enumerate(args):
        if a is node:
            j -= off
            if pt is None or j >= len(pt) or j < 0:
                return False
            t = pt[j]
            return (t.rstrip().endswith("&") or t.rstrip().endswith("*")) and not t.startswith("const ")
    return False


def local_alias(fbody, g):
    """Local references and pointers initialised with the static variable count as writers when not const."""
    for n, up in walk(fbody):
        if n.get("k") == "decl":
            for v in n.get("vars", []):
                t = v.get("t", "")
                if (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") and isinstance(v.get("init"), dict):
                    i = v["init"]
                    for m, up2 in walk(i):
                        if m.get("k") == "ref" and key(m) == g:
                            yield m, v


def key(n):
    if n.get("gu"):
        return n["gu"]
    return None


def c32(chk):
    I, p = chk.I, chk.p
    T = chk.thorough
    chk.rule("state", "every variable with static storage is constant, a documented global setting, or the factory manager created by its accessor")
    chk.rule("write", "a global setting is written by its own public setter only, and no library function calls such a setter")
    chk.rule("factories", "no library function registers, deregisters or replaces entries of the shared factories outside the factories' own constructors and members")
    chk.rule("ambient", "no library function uses the hidden state of the C library, clocks or the environment (Operation::random and the timing of Benchmark::run aside)")
    chk.rule("unchanged", "no global variable has another value after constructing, loading, evaluating, converting and copying")
    chk.rule("history", "evaluating again with the same inputs gives the same result, whatever was evaluated in between on the same or another object")
    chk.rule("independent", "processing one engine leaves every attribute of another as it was, and gives what it gives alone")

    lib = [f for f in p.fn.values() if f["file"].startswith(("src/", "fuzzylite/")) and not f["file"].endswith("main.cpp")]
    if len(lib) < 900:
        raise AnalysisBroken("only %d functions" % len(lib))

    # ---- inventory of static storage
    mutable = {}
    for gu, g in p.glob.items():
        if not g["file"].startswith(("src/", "fuzzylite/")):
            continue
        t = g["t"]
        const = g.get("const") or (t.rstrip().endswith("&") and t.startswith("const "))
        if not const:
            mutable[gu] = g
    if not any(g["q"] == FLN + "fuzzylite::_decimals" or g["t"] == "int" for g in mutable.values()):
        raise AnalysisBroken("no global settings found")

    # functions that write each mutable variable
    statics = {}                                       # (unit file, local id) of static locals
    writers = {g: [] for g in mutable}
    readers = {g: set() for g in mutable}
    calls = {}
    for f in lib:
        calls[f["u"]] = set()
        local_statics = {}
        for part in parts(f):
            for n, up in walk(part):
                if n.get("k") == "decl":
                    for v in n.get("vars", []):
                        if v.get("static"):
                            local_statics[v["id"]] = v.get("gu")
        for part in parts(f):
            for n, up in walk(part):
                k = n.get("k")
                if n.get("fn"):
                    calls[f["u"]].add(n["fn"])
                if k != "ref":
                    continue
                g = n.get("gu") if n.get("gv") else local_statics.get(n.get("lv")) if n.get("lv") else None
                if g not in mutable:
                    continue
                readers[g].add(f["u"])
                if writes(n, up):
                    writers[g].append((f, n["l"]))
            for m, v in local_alias(part, None):
                pass
            for n, up in walk(part):
                if n.get("k") == "decl":
                    for v in n.get("vars", []):
                        t = v.get("t", "")
                        if t.rstrip().endswith(("&", "*")) and not t.startswith("const ") and isinstance(v.get("init"), dict):
                            for m, up2 in walk(v["init"]):
                                if m.get("k") == "ref" and (m.get("gu") if m.get("gv") else local_statics.get(m.get("lv"))) in mutable and not any(a.get("k") in ("l2r", "call", "mcall", "op", "ctor") for a, _ in up2):
                                    writers[m.get("gu") if m.get("gv") else local_statics[m["lv"]]].append((f, v["l"]))

    def where(f, l):
        return "%s:%d (%s)" % (f["file"], l, f["q"])

    def setter_of(f, g):
        """f is a public static setter of the class the static member belongs to"""
        cls = g["q"].rsplit("::", 1)[0]
        own = f["q"].rsplit("::", 1)[0] == cls
        hidden = cls not in p.cls and not g.get("local") and f.get("cls") and g["file"] == f["file"]      # kept in the setter's source file
        return (own or hidden) and f.get("static") and f["name"].startswith("set") and f.get("access", 0) == 0
    callers = {}
    for u, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(u)

    def only_from(f, ok, seen=()):
        """ok(f), or f is a helper that is called, but only by functions for which this holds"""
        if ok(f):
            return True
        cs = callers.get(f["u"], set()) - {f["u"]} - set(seen)
        cls = f.get("cls") or ""
        api = cls and f.get("access", 0) == 0 and "@" not in cls and "(anon)" not in cls
        return bool(cs) and not api and all(c in p.fn and only_from(p.fn[c], ok, tuple(seen) + (f["u"],)) for c in cs)
    setters = set()
    for gu, g in sorted(mutable.items(), key=lambda kv: kv[1]["q"]):
        own = g["q"].rsplit("::", 1)[0]
        is_instance = g["t"].split("::")[-1].rstrip(" *") == "FactoryManager"       # the manager instance() gives
        allowed = [f for f in lib if setter_of(f, g)]
        bad = []
        for f, l in writers[gu]:
            if setter_of(f, g):
                setters.add(f["u"])
                continue
            if only_from(f, lambda x: any(a["u"] == x["u"] for a in allowed)):       # a helper that only setters call
                setters.add(f["u"])
                setters.update(a["u"] for a in allowed)
                continue
            bad.append((f, l))
        if is_instance:
            bad = []
        for f, l in bad:
            chk.fact("write", f["q"], "%s at %s" % (g["q"], f["q"]), False, "writes the variable %s with static storage" % g["q"], where(f, l))
        if not bad:
            chk.fact("write", g["q"], g["q"], True, "", "%s:%d" % (g["file"], g["l"]))
        # a static variable that nothing reads or writes at run time is harmless; one with state must be a setting
        ok = is_instance or not writers[gu] or all(b is None for b in ()) and not bad or not bad
        chk.fact("state", g["q"], g["q"], ok, "is mutable state with static storage that is no global setting", "%s:%d" % (g["file"], g["l"]))

    # ---- nobody calls the setters
    for f in lib:
        if f["u"] in setters or only_from(f, lambda x: x["q"].startswith(FLN + "Console::")):
            continue
        hit = sorted(c for c in calls[f["u"]] if c in setters)
        chk.fact("write", f["q"], f["u"], not hit, "calls %s, which changes a global setting" % ", ".join(p.fn[c]["q"] for c in hit if c in p.fn), "%s:%d" % (f["file"], f["l"]))

    # ---- nobody changes the factories
    fac = {q for q in p.cls if "Factory" in q and q.startswith(FLN) and p.cls[q].file.startswith(("src/", "fuzzylite/"))}
    n_ref = 0
    for f in lib:
        if only_from(f, lambda x: (x.get("cls") or x["q"].rsplit("::", 1)[0]) in fac):
            continue
        for part in parts(f):
            for n, up in walk(part):
                if n.get("k") == "mcall" and n.get("cls") in fac:
                    n_ref += 1
                    pure = n.get("const") or n["name"] in ("tnorm", "snorm", "activation", "defuzzifier", "term", "hedge", "function")
                    chk.fact("factories", f["q"], "%s at %s:%d" % (n["q"], f["u"], n["l"]), pure, "calls %s, which changes a shared factory" % n["q"], where(f, n["l"]))
                if n.get("k") == "op" and n.get("op") == "=" and n.get("cls") in fac:
                    chk.fact("factories", f["q"], "assignment at %s:%d" % (f["u"], n["l"]), False, "assigns a factory", where(f, n["l"]))
    if n_ref < 5:
        raise AnalysisBroken("only %d uses of factories" % n_ref)

    # ---- ambient state
    for f in lib:
        hits = []
        for part in parts(f):
            for n, up in walk(part):
                q = n.get("q") or ""
                if n.get("fn") and (q in AMBIENT or q.startswith("std::") and q[5:] in AMBIENT or "random_device" in q or "mt19937" in q or q.endswith("_clock::now") or q == "std::locale::global"):
                    hits.append((q, n["l"]))
        for q, l in hits:
            name = f["q"]
            ok = only_from(f, lambda x: x["q"] == FLN + "Operation::random" or "_clock::now" in q and x["q"].startswith((FLN + "Benchmark::", FLN + "Console::")))
            chk.fact("ambient", name, q, ok, "calls %s, whose result depends on more than its arguments" % q, where(f, l))
        if not hits:
            chk.fact("ambient", f["q"], f["u"], True, "", "%s:%d" % (f["file"], f["l"]))
    rnd = [f["u"] for f in lib if f["q"] == FLN + "Operation::random"]
    for f in lib:
        if only_from(f, lambda x: x["q"].startswith(FLN + "Console::")):
            continue
        hit = [c for c in calls[f["u"]] if c in rnd]
        if hit:
            chk.fact("ambient", f["q"], "random", False, "calls Operation::random", "%s:%d" % (f["file"], f["l"]))

    # ---- by interpretation: globals stay what they are
    def manager(I):
        return I.val(I.scall(FLN + "FactoryManager::instance"))

    def state(I):
        out = {}
        for gu in mutable:
            g = mutable[gu]
            v = I.globals.get(gu)
            if v is None:
                continue
            v = I.val(v)
            out[gu] = v if not isinstance(v, Obj) else None
        m = manager(I)
        names = []
        for k in ("tnorm", "snorm", "hedge", "activation", "defuzzifier", "term", "function"):
            fcty = I.val(I.call(m, k))
            av = "available" if p.methods(fcty.dyn, "available", 0) else "availableOperators"
            names.append([x.v if x.__class__ is I.std.SStr else x for x in map(I.val, I.val(I.call(fcty, av)).x)])
        return out, names

    def watched(name, op, construct):
        def f(I):
            # let every lazily created thing be created
            for s in ("decimals", "macheps", "atol", "scalarFormat", "isLogging", "isDebugging"):
                for fn in p.byname.get(FLN + "fuzzylite::" + s, []):
                    if not fn["params"]:
                        I.scall(fn["q"])
            I.scall(FLN + "IntegralDefuzzifier::defaultResolution")
            a, an = state(I)
            op(I)
            b, bn = state(I)
            for gu in a:
                x, y = a[gu], b.get(gu)
                if isinstance(x, Num) or isinstance(y, Num):
                    if near(I.num(x), I.num(y)) is False:
                        raise Violated("%s is %s afterwards, %s before" % (mutable[gu]["q"], show(y), show(x)))
                elif not isinstance(x, Obj) and x.__class__ in (int, bool) and x != y:
                    raise Violated("%s is %s afterwards, %s before" % (mutable[gu]["q"], y, x))
            if an != bn:
                raise Violated("the shared factories offer other names afterwards")
        chk.obl("unchanged", construct, name, f)

    for q in sorted(concrete(p)):
        c = short(q)
        if not p.cls[q].file.startswith(("fuzzylite/", "src/")) or c in ("Console", "Benchmark", "FactoryManager") or c.endswith("Factory"):
            continue

        def make(I, q=q):
            o = I.make(q)
            populate(I, o, Values(I, 77))
            describe(I, o)
            if p.methods(q, "clone", 0):
                I.delete(I.val(I.call(o, "clone")))
            I.delete(o)
        watched("constructing, populating, describing, cloning and destroying", make, c)
    for fmt in ("FLL", "FIS", "FCL"):
        watched("importing and exporting", lambda I, fmt=fmt: TX.exported(I, TX.exporter(I, fmt), TX.imported(I, TX.importer(I, fmt), TX.DOC[fmt])), fmt)
    for n in ("CppExporter", "JavaExporter"):
        watched("exporting", lambda I, n=n: TX.exported(I, I.make(n), rich_engine(I)), n)

    def small(I, e, res=4):
        for o in outs(I, e):
            d = I.val(I.call(o, "getDefuzzifier"))
            if d is not None and p.is_a(d.dyn, FLN + "IntegralDefuzzifier"):
                I.call(d, "setResolution", res)

    def proc(I):
        e = rich_engine(I, fuzzy=False)
        for k, v in enumerate(ins(I, e)):
            I.call(v, "setValue", 0.25 + k)
        small(I, e)
        I.call(e, "process")
        I.call(e, "restart")
    watched("processing", proc, "Engine::process")

    # ---- history
    def again(name, construct, build, ev, xs, others=()):
        """ev(I, o, x) for x in xs twice, in different orders and with another object in between, gives the same results."""
        def f(I):
            o = build(I, 1)
            first = [ev(I, o, x) for x in xs]
            o2 = build(I, 2)
            for x in reversed(xs):
                ev(I, o2, x)
            unsure = False
            for k in list(range(len(xs)))[::-1] + list(range(len(xs))):
                y = ev(I, o, xs[k])
                if near(first[k], y) is False:
                    raise Violated("evaluated at %s again, the result is %s instead of %s" % (show(xs[k]), show(y), show(first[k])))
                if same(first[k], y) is not True:
                    unsure = True
            o3 = build(I, 1)
            for k, x in enumerate(xs):
                y = ev(I, o3, x)
                if near(first[k], y) is False:
                    raise Violated("an equal object evaluated at %s gives %s instead of %s" % (show(x), show(y), show(first[k])))
            return None if not unsure else False
        chk.obl("history", construct, name, f, limit=512)
    XS = [N.const(v) for v in (0.125, 0.75, -1.5, 2.25)] + [N.NAN, N.const(0.5), N.const(0.75)]
    for c, t in sorted(TERMS.items()):
        def build(I, seed, c=c, t=t):
            o = I.make(c)
            n = len(t[0])
            for j, a in enumerate(t[0]):
                I.call(o, "set" + a[0].upper() + a[1:], (-2.0 + 1.25 * j + 0.5 * seed) if a not in ("direction", "slope", "rising", "falling", "standardDeviation", "width") else (1.0 + 0.5 * seed + 0.25 * j))
            return o
        again("membership", c, build, lambda I, o, x: I.num(I.call(o, "membership", x)), XS)
    def disc(I, seed):
        o = I.make("Discrete")
        I.call(o, "setXY", I.std.Vec([I.std.Pair(Cell(N.const(a)), Cell(N.const(b))) for a, b in ((-1.0, 0.25 * seed), (0.0, 1.0), (1.0, 0.5), (2.0, 0.0))], "std::pair<double, double>"))
        return o
    again("membership", "Discrete", disc, lambda I, o, x: I.num(I.call(o, "membership", x)), XS)

    def fun(I, seed):
        o = I.make("Function")
        I.call(o, "load", "x * %d + sin ( x ) ^ 2" % seed, None)
        return o
    again("membership", "Function", fun, lambda I, o, x: I.num(I.call(o, "membership", x)), XS)
    pairs = [(N.const(a), N.const(b)) for a, b in ((0.25, 0.75), (0.75, 0.25), (0.5, 0.5), (0.0, 1.0), (1.0, 0.25), (0.25, 0.75))]
    for base in ("TNorm", "SNorm"):
        for q in p.subclasses(FLN + base):
            if p.cls[q].file.startswith(("fuzzylite/", "src/")) and short(q) not in ("TNormFunction", "SNormFunction"):
                again("compute", short(q), lambda I, seed, q=q: I.make(q), lambda I, o, x: I.num(I.call(o, "compute", x[0], x[1])), pairs)
    for q in p.subclasses(FLN + "Hedge"):
        if p.cls[q].file.startswith(("fuzzylite/", "src/")) and short(q) != "HedgeFunction":
            again("hedge", short(q), lambda I, seed, q=q: I.make(q), lambda I, o, x: I.num(I.call(o, "hedge", x)), [N.const(v) for v in (0.25, 0.75, 0.5, 0.0, 1.0, 0.25)])
    for base in ("TNorm", "SNorm", "Hedge"):
        def fn(I, seed, base=base):
            o = I.make(base + "Function")
            I.call(o, "setFormula", "x * %s" % ("0.5" if seed == 1 else "0.25") if base == "Hedge" else "a * b * %s" % ("0.5" if seed == 1 else "0.25"))
            return o
        if base == "Hedge":
            again("hedge", "HedgeFunction", fn, lambda I, o, x: I.num(I.call(o, "hedge", x)), [N.const(v) for v in (0.25, 0.75, 0.5)])
        else:
            again("compute", base + "Function", fn, lambda I, o, x: I.num(I.call(o, "compute", x[0], x[1])), pairs)
    for q in p.subclasses(FLN + "IntegralDefuzzifier"):
        if not p.cls[q].file.startswith(("fuzzylite/", "src/")):
            continue

        def build(I, seed, q=q):
            o = I.make(q)
            I.call(o, "setResolution", 3 + seed)
            return (o, [I.make("Triangle", "a", -1.0, 0.5 * seed, 2.0), I.make("Ramp", "b", -1.0, 2.0), I.make("Rectangle", "c", 0.0, 1.0)])
        again("defuzzify", short(q), build, lambda I, o, x: I.num(I.call(o[0], "defuzzify", o[1][x[0]], x[1], x[2])),
              [(0, N.const(-1.0), N.const(2.0)), (1, N.const(-1.0), N.const(2.0)), (2, N.const(-1.0), N.const(2.0)), (0, N.const(0.0), N.const(1.0)), (1, N.const(0.0), N.const(1.0))])
    for q in p.subclasses(FLN + "WeightedDefuzzifier"):
        if not p.cls[q].file.startswith(("fuzzylite/", "src/")):
            continue

        def build(I, seed, q=q):
            o = I.make(q)
            aggs = []
            for k in range(3):
                g = I.make("Aggregated", "g", -5.0, 5.0)
                for j in range(k + 1):
                    t = I.make("Constant", "t", 1.5 * j + k) if k != 1 else I.make("Ramp", "t", -1.0, 2.0 + j)
                    I.call(g, "addTerm", t, 0.25 * (j + 1), None)
                aggs.append(g)
            return (o, aggs)
        again("defuzzify", short(q), build, lambda I, o, x: I.num(I.call(o[0], "defuzzify", o[1][x], N.const(-5.0), N.const(5.0))), [0, 1, 2, 1])

    # ---- engines
    def engine(I, fmt="FLL", doc=None):
        e = TX.imported(I, TX.importer(I, fmt), doc or ENGINES[0])
        small(I, e)
        return e

    def evaluate(I, e, x):
        for v, a in zip(ins(I, e), x):
            I.call(v, "setValue", a)
        I.call(e, "process")
        return [I.num(I.get(o, "getValue")) for o in outs(I, e)]

    def compare(a, b, what):
        un = False
        for k, (x, y) in enumerate(zip(a, b)):
            if near(x, y) is False:
                raise Violated("%s, output %d is %s instead of %s" % (what, k + 1, show(y), show(x)))
            if same(x, y) is not True:
                un = True
        return un
    A, B_ = (N.const(0.25), N.const(0.75)), (N.const(0.625), N.const(0.125))
    for n, doc in enumerate(ENGINES):
        def hist(I, doc=doc):
            e = engine(I, doc=doc)
            a = evaluate(I, e, A)
            b = evaluate(I, e, B_)
            un = compare(a, evaluate(I, e, A), "processing the first inputs again")
            un |= compare(b, evaluate(I, e, B_), "processing the second inputs again")
            un |= compare(b, evaluate(I, e, B_), "processing the second inputs twice")
            I.call(e, "restart")
            un |= compare(a, evaluate(I, e, A), "after a restart")
            un |= compare(a, evaluate(I, engine(I, doc=doc), A), "in a new equal engine")
            return None if not un else False
        chk.obl("history", "Engine::process", "engine %d" % n, hist, limit=256, where=chk.loc("Engine", "process"))
        for m, other in enumerate(ENGINES):
            def indep(I, doc=doc, other=other):
                e1 = engine(I, doc=doc)
                a = evaluate(I, e1, A)
                d = describe(I, e1)
                e2 = engine(I, doc=other)
                c = evaluate(I, e2, B_)
                un = demand_same(d, describe(I, e1), "after processing another engine, the engine") is False
                e3 = engine(I, doc=other)
                un |= compare(c, evaluate(I, e3, B_), "in a new equal engine")
                for k in range(2):
                    un |= compare(a, evaluate(I, e1, A), "interleaved with another engine")
                    un |= compare(c, evaluate(I, e2, B_), "interleaved with another engine")
                I.call(e2, "restart")
                I.delete(e2)
                un |= compare(a, evaluate(I, e1, A), "after another engine is destroyed")
                return None if not un else False
            if n != m or T:
                chk.obl("independent", "Engine::process", "engines %d and %d" % (n, m), indep, limit=256, where=chk.loc("Engine", "process"))
    return ("Effect analysis over all %d functions of the library: inventory of static storage, its writers, callers of global setters, mutators of shared factories, and uses of ambient state; "
            "plus interpretation of every evaluation function in repeated and interleaved histories." % len(lib))


def _fll(inputs, outputs, blocks):
    return "Engine: e\n" + "".join("InputVariable: in%d\n  range: 0.000 1.000\n%s" % (k + 1, "".join("  term: %s\n" % t for t in ts)) for k, ts in enumerate(inputs)) + \
        "".join("OutputVariable: out%d\n  range: 0.000 1.000\n  aggregation: %s\n  defuzzifier: %s\n%s" % (k + 1, ag, d, "".join("  term: %s\n" % t for t in ts)) for k, (ag, d, ts) in enumerate(outputs)) + \
        "".join("RuleBlock: b%d\n  conjunction: %s\n  disjunction: %s\n  implication: %s\n  activation: %s\n%s" % (k + 1, cj, dj, im, ac, "".join("  rule: %s\n" % r for r in rs)) for k, (cj, dj, im, ac, rs) in enumerate(blocks))


AB = ["a Triangle 0.000 0.250 0.750", "b Ramp 0.250 1.000"]
XY = ["x Triangle 0.000 0.250 0.500", "y Trapezoid 0.250 0.500 0.750 1.000"]
RS = ["if in1 is a and in2 is very b then out1 is x", "if in1 is b or in2 is a then out1 is y with 0.500", "if in1 is not a then out1 is x and out2 is y"]
ENGINES = [
    _fll([AB, AB], [("Maximum", "Centroid 4", XY), ("Maximum", "LargestOfMaximum 4", XY)], [("Minimum", "Maximum", "Minimum", "General", RS)]),
    _fll([AB, AB], [("none", "WeightedAverage TakagiSugeno", ["x Constant 0.250", "y Linear 0.500 0.250 0.125"]), ("none", "WeightedSum TakagiSugeno", ["x Constant 1.000", "y Function in1*2+in2"])],
         [("AlgebraicProduct", "AlgebraicSum", "none", "General", RS), ("Minimum", "Maximum", "none", "Highest 1", ["if in1 is somewhat a then out2 is x", "if in2 is b then out2 is y"])]),
    _fll([AB, AB], [("AlgebraicSum", "MeanOfMaximum 4", XY), ("BoundedSum", "Bisector 4", XY)],
         [("Minimum", "Maximum", "AlgebraicProduct", "Proportional", RS[:2]), ("Minimum", "Maximum", "AlgebraicProduct", "Threshold > 0.125", ["if in2 is b then out2 is extremely x", "if out1 is x then out2 is y"])]),
]
