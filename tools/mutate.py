#!/usr/bin/env python3
"""Development tool (no check uses it): mutate /repo's sources, keep what compiles and passes the tests, and see which check notices.
   mutate.py base            compile the objects once and record which functions each check visits
   mutate.py make N SEED     choose N mutants, compile and test them; survivors go to survivors.jsonl
   mutate.py check           run the checks that visit the mutated function on every survivor; results.jsonl
Works in /tmp/mt only."""
import glob, importlib, json, os, pickle, random, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
MT = "/tmp/mt"
FLAGS = ["-DFL_BACKTRACE", "-I/repo", "-std=gnu++11", "-O1", "-w", "-DNDEBUG"]


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def units():
    from flai.program import cached
    return cached("/repo")


def child(f, path, limit):
    """Run f in a forked child with a large stack, its result pickled to path."""
    pid = os.fork()
    if pid == 0:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)

        def run():
            try:
                r = f()
            except BaseException as e:
                r = ("broken", repr(e))
            with open(path, "wb") as fh:
                pickle.dump(r, fh)
        t = threading.Thread(target=run)
        t.start()
        t.join(limit)
        os._exit(0)
    os.waitpid(pid, 0)
    try:
        with open(path, "rb") as fh:
            r = pickle.load(fh)
        os.unlink(path)
        return r
    except Exception:
        return ("timeout", "")


def run_check(pid, us, stop=True):
    import flai.check as C
    import flai.program as P
    from checks.registry import CHECKS
    P.cached = lambda repo=None: us
    t0 = time.time()
    chk = C.Check(pid, "quick", 1)
    known = {k for k, _ in chk.known()}

    class Caught(BaseException):
        pass
    if stop:
        o = chk.obl

        def obl(*a, **k):
            r = o(*a, **k)
            for v in chk.viol:
                if chk.key(v) not in known:
                    raise Caught("%s %s %s: %s" % (v["rule"], v["construct"], v["case"], v["message"]))
            return r
        chk.obl = obl
    try:
        m, f = CHECKS[pid][:2]
        getattr(importlib.import_module("checks." + m), f)(chk)
        v = [v for v in chk.viol if chk.key(v) not in known]
        if v and stop:
            return ("caught", "%(rule)s %(construct)s %(case)s: %(message)s" % v[0])
    except Caught as e:
        return ("caught", str(e))
    return ("quiet", (time.time() - t0, sorted(chk.I.visited), len(chk.unsure)))


def base():
    os.makedirs(MT + "/obj", exist_ok=True)
    srcs = [s for s in glob.glob("/repo/src/**/*.cpp", recursive=True) if not s.endswith("main.cpp")] + glob.glob("/repo/test/**/*.cpp", recursive=True)

    def cc(s):
        o = MT + "/obj/" + s[6:].replace("/", "__") + ".o"
        r = sh(["g++", *FLAGS, "-I/repo/test", "-c", s, "-o", o])
        return s, r.returncode, r.stderr[-300:]
    cmds = json.load(open("/repo/_build/compile_commands.json"))
    with ThreadPoolExecutor(8) as ex:
        for s, rc, e in ex.map(cc, srcs):
            if rc:
                print(s, e)
    us = units()
    from checks.registry import CHECKS
    with ThreadPoolExecutor(7) as ex:
        rs = dict(zip(CHECKS, ex.map(lambda pid: forked(pid), CHECKS)))
    out = {}
    for pid, r in rs.items():
        print(pid, r[0], r[1] if r[0] != "quiet" else (round(r[1][0], 1), len(r[1][1]), r[1][2]))
        if r[0] == "quiet":
            out[pid] = {"time": r[1][0], "fns": r[1][1]}
    json.dump(out, open(MT + "/visited.json", "w"))


def forked(pid):
    code = "import sys; sys.path.insert(0, %r); import mutate, pickle; us = mutate.units(); r = mutate.child(lambda: mutate.run_check(%r, us, False), '/tmp/mt/base-%s.pkl', 1200); pickle.dump(r, open('/tmp/mt/base-%s.out', 'wb'))" % (VERIF + "/tools", pid, pid, pid)
    subprocess.run([sys.executable, "-c", code])
    with open("/tmp/mt/base-%s.out" % pid, "rb") as f:
        return pickle.load(f)


# --------------------------------------------------------------------------- mutants
SWAPS = [(r"\bisLt\b", "isLE"), (r"\bisLE\b", "isLt"), (r"\bisGt\b", "isGE"), (r"\bisGE\b", "isGt"), (r"\bisEq\b", "isLE"), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
         (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"\btrue\b", "false"),
         (r"\bfalse\b", "true"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.0"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "3.0"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
         (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bcbegin|begin\b", "end"), (r"\.size\(\)", ".size() - 1"), (r"\+\+i\b", "i += 2"),
         (r"\bgetMinimum\b", "getMaximum"), (r"\bgetMaximum\b", "getMinimum"), (r"\bgetConjunction\b", "getDisjunction"), (r"\bgetDisjunction\b", "getConjunction"), (r"\bfront\(\)", "back()"),
         (r"\bback\(\)", "front()"), (r"\binputVariables\b", "outputVariables"), (r"\boutputVariables\b", "inputVariables"), (r"\bgetValue\b", "getPreviousValue"), (r"\bgetName\b", "className"),
         (r"\bfl::nan\b", "0.0"), (r"\bfl::inf\b", "1.0"), (r"\s-fl::inf\b", " fl::inf"), (r" \+= ", " = "), (r" = ", " += "), (r"\bclear\(\)", "size()"), (r"\bif \((?!.*\{.*\}).*\)( \{)?$", None), (r"\breset\(\)", "get()"),
         (r"\.at\(i\)", ".at(0)"), (r"\(i\)", "(0)"), (r"\bisNaN\b", "isInf"), (r"\bisInf\b", "isNaN"), (r"\bisFinite\b", "not Op::isNaN"), (r"\band not ", "and "), (r"\bstd::abs\(", "("),
         (r"\bother\.", "this->"), (r"\bsource\.", "this->"), (r" \? (.*) : (.*);$", r" ? \2 : \1;"), (r"\bisFinite\b", "isInf"), (r"\bgetHeight\(\)", "1.0"), (r"\b_height\b", "1.0"),
         (r"\belse if\b", "if"), (r"\btrim\b", ""), (r"\.release\(\)", ".get()"), (r"\bclone\(\)", "get()"), (r"i \+ 1", "i"), (r"\bstatic_cast<int>\(", "("), (r"\breturn;$", ";")]
STMT = re.compile(r"^\s+(?!return\b|break\b|continue\b|delete\b|throw\b|using\b|typedef\b|const\b|std::\w+ \w+ = |scalar \w+|int \w+|bool \w+)[\w*][^{}]*;\s*$")
ARGS = re.compile(r"\((\w[\w.>()-]*), (\w[\w.>()-]*)\)")


def mutants():
    us = units()
    fn = {}
    for u in us:
        for f in u["functions"]:
            if f["file"].startswith("src/") and "main.cpp" not in f["file"] and f.get("body") and not f["implicit"]:
                fn.setdefault((f["file"], f["l"], f["el"]), f["u"])
    byfile = {}
    for (file, l, el), u in fn.items():
        byfile.setdefault(file, []).append((l, el, u))
    out = []
    for file, fs in sorted(byfile.items()):
        lines = open("/repo/" + file).read().split("\n")
        for l, el, u in fs:
            for k in range(l, el + 1):
                t = lines[k - 1]
                if t.strip().startswith(("//", "FL_DBG", "FL_LOG", "FL_IUNUSED")) or "<<" in t and "FL_AT" in t or "throw" in t:
                    continue
                for pat, rep in SWAPS:
                    for m in re.finditer(pat, t):
                        if t[:m.start()].count('"') % 2:
                            continue
                        if rep is None:
                            c = re.sub(r"\bif \((.*)\)( \{)?$", r"if (not (\1))\2", t)
                            out.append((file, k, u, c))
                        else:
                            out.append((file, k, u, t[:m.start()] + m.expand(rep) + t[m.end():]))
                if STMT.match(t) and k > l and lines[k - 2].rstrip().endswith((";", "{", "}")):
                    out.append((file, k, u, ""))
                    out.append((file, k, u, t + " " + t.strip()))
                for m in ARGS.finditer(t):
                    if not t[:m.start()].count('"') % 2 and m.group(1) != m.group(2) and not t[:m.start()].endswith(("isEq", "min", "max")):
                        out.append((file, k, u, t[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + t[m.end():]))
    return [m for m in dict.fromkeys(out)]


def make(n, seed):
    rng = random.Random(seed)
    done = set()
    for name in ("survivors.jsonl", "killed.jsonl"):
        if os.path.exists(MT + "/" + name):
            done |= {tuple(json.loads(x)["m"]) for x in open(MT + "/" + name)}
    ms = [m for m in mutants() if m not in done]
    # spread over functions
    per = {}
    rng.shuffle(ms)
    for m in ms:
        per.setdefault(m[2], []).append(m)
    order = []
    k = 0
    while len(order) < n and any(per.values()):
        for u in sorted(per):
            if per[u] and (k == 0 or rng.random() < min(1.0, len(per[u]) / 8.0)):
                order.append(per[u].pop())
        k += 1
    rng.shuffle(order)
    order = order[:n]
    print(len(ms), "mutants,", len(order), "chosen")
    objs = {os.path.basename(o): o for o in glob.glob(MT + "/obj/*.o")}
    lock = threading.Lock()
    stat = {"compile": 0, "tests": 0, "survive": 0}

    def one(im):
        i, m = im
        file, k, u, new = m
        lines = open("/repo/" + file).read().split("\n")
        lines[k - 1] = new
        d = MT + "/w%d" % i
        os.makedirs(d, exist_ok=True)
        src = d + "/" + os.path.basename(file)
        open(src, "w").write("\n".join(lines))
        r = sh(["g++", *FLAGS, "-c", src, "-o", d + "/m.o"])
        verdict = None
        if r.returncode:
            verdict = "compile"
        else:
            me = file.replace("/", "__") + ".o"
            assert me in objs, me
            r = sh(["g++", *[o for b, o in objs.items() if b != me], d + "/m.o", "-o", d + "/t", "-lCatch2", "-lpthread"])
            if r.returncode:
                verdict = "compile"
            else:
                try:
                    r = sh("ulimit -v 4000000; cd %s && timeout 40 ./t" % d, shell=True, timeout=60)
                    verdict = "survive" if "failed as expected" in r.stdout and r.returncode == 0 else "tests"
                except Exception:
                    verdict = "tests"
        subprocess.run(["rm", "-r", d])
        with lock:
            stat[verdict] += 1
            with open(MT + ("/survivors.jsonl" if verdict == "survive" else "/killed.jsonl"), "a") as f:
                f.write(json.dumps({"m": m, "old": open("/repo/" + file).read().split("\n")[k - 1]}) + "\n")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, enumerate(order)))
    print(stat)


def dump(file, text):
    from flai import program as P
    import tempfile
    exe = os.path.join(VERIF, "build/fldump")
    res = sh(["/usr/lib/llvm-18/bin/clang", "-print-resource-dir"]).stdout.strip()
    # the unit must be seen at its own place: an overlay of the virtual file system is not needed, a copy of the tree is cheap
    d = tempfile.mkdtemp(prefix="w-", dir=MT)
    subprocess.run("cp -r /repo/src /repo/fuzzylite /repo/fl %s/" % d, shell=True, check=True)
    open(d + "/" + file, "w").write(text)
    r = sh([exe, d, d + "/" + file, d + "/out.json", "--", "-DFL_BACKTRACE", "-I" + d, "-std=gnu++11", "-w", "-resource-dir", res], cwd=d)
    out = None
    if r.returncode == 0:
        out = json.loads(open(d + "/out.json").read().replace(d, "/repo"))
    subprocess.run(["rm", "-r", d])
    return out


def check(part=0, parts=1, limit=400):
    vis = json.load(open(MT + "/visited.json"))
    us = units()
    done = set()
    for f in glob.glob(MT + "/results*.jsonl"):
        done |= {tuple(json.loads(x)["m"]) for x in open(f)}
    todo = [json.loads(x) for x in open(MT + "/survivors.jsonl")]
    todo = [t for k, t in enumerate(todo) if k % parts == part and tuple(t["m"]) not in done]
    for t in todo:
        file, k, u, new = t["m"]
        lines = open("/repo/" + file).read().split("\n")
        lines[k - 1] = new
        d = dump(file, "\n".join(lines))
        if d is None:
            continue
        mine = [d if x["main"] == d["main"] else x for x in us]
        own = {"C38": "Console", "C24": "/Fll|Operation", "C25": "/Fis", "C26": "/Fcl", "C27": "/Cpp|/Java", "C21": "rule/|Importer|Function", "C33": "/term/"}
        pids = sorted((p for p in vis if u in vis[p]["fns"] and re.search(own.get(p, ""), "/" + file)), key=lambda p: vis[p]["time"])
        res, how = "MISSED", ""
        tried = []
        for p in pids:
            r = child(lambda: run_check(p, mine), MT + "/r%d.pkl" % part, limit)
            tried.append(p + ("" if r[0] == "quiet" else ":" + r[0]))
            if r[0] == "caught":
                res, how = p, r[1]
                break
        t.update(result=res, how=how[:300], tried=tried)
        with open(MT + "/results%d.jsonl" % part, "a") as f:
            f.write(json.dumps(t) + "\n")


if __name__ == "__main__":
    a = sys.argv[1]
    if a == "base":
        base()
    elif a == "make":
        make(int(sys.argv[2]), int(sys.argv[3]))
    elif a == "check":
        check(*[int(x) for x in sys.argv[2:]])
