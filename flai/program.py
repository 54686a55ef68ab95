"""The resolved program: every translation unit of /repo/src as dumped by frontend/fldump (clang's own type checker)."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLAI_REPO", "/repo")
INSTANCES = os.path.join(VERIF, "frontend/instances.cpp")


class FrontEndError(Exception):
    pass


def extract(repo=REPO):
    """Dump every source file of the working tree; returns the list of dumped units (python dicts)."""
    subprocess.run(["bash", os.path.join(VERIF, "frontend/build.sh")], check=True, stdout=subprocess.DEVNULL)
    exe = os.path.join(VERIF, "build/fldump")
    res = subprocess.run(["/usr/lib/llvm-18/bin/clang", "-print-resource-dir"], check=True, capture_output=True, text=True).stdout.strip()
    srcs = sorted(glob.glob(os.path.join(repo, "src", "**", "*.cpp"), recursive=True))
    if not srcs:
        raise FrontEndError("no sources under %s/src" % repo)
    tmp = tempfile.mkdtemp(prefix="flai-ast-")
    try:
        def one(i_src):
            i, src = i_src
            out = os.path.join(tmp, "%d.json" % i)
            p = subprocess.run([exe, repo, src, out, "--", "-DFL_BACKTRACE", "-I" + repo, "-std=gnu++11", "-w", "-resource-dir", res],
                               capture_output=True, text=True, cwd=repo)
            if p.returncode and src == INSTANCES:
                return None
            if p.returncode:
                raise FrontEndError("cannot parse %s:\n%s" % (src, p.stderr[-2000:]))
            with open(out) as f:
                d = json.load(f)
            os.unlink(out)
            return d
        with ThreadPoolExecutor(8) as ex:
            return [u for u in ex.map(one, enumerate(srcs + [INSTANCES])) if u is not None]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cached(repo=REPO):
    """The dump of exactly this working tree: keyed by the content of every source, header and the front end."""
    import pickle
    h = hashlib.sha256()
    fs = sorted(f for d in ("src", "fuzzylite") for f in glob.glob(os.path.join(repo, d, "**", "*"), recursive=True) if os.path.isfile(f))
    for f in fs + [INSTANCES, os.path.join(VERIF, "frontend/fldump.cpp"), os.path.join(VERIF, "flai/program.py")]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    path = os.path.join(VERIF, "build", "ast-%s.pickle" % h.hexdigest()[:24])
    if os.path.exists(path):
        try:
            with open(path, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    units = extract(repo)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    old = sorted(glob.glob(os.path.join(VERIF, "build", "ast-*.pickle")), key=os.path.getmtime)
    for o in old[:-6]:
        try:
            os.unlink(o)
        except OSError:
            pass
    fd, t = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f:
        pickle.dump(units, f, protocol=4)
    os.replace(t, path)
    return units


class Class:
    def __init__(self, d):
        self.d = d
        self.q = d["q"]
        self.name = d["name"]
        self.qual = d["qual"]
        self.bases = d["bases"]
        self.fields = d["fields"]
        self.methods = d["methods"]
        self.abstract = d["abstract"]
        self.file = d["file"]
        self.line = d["l"]
        self.py = {}          # root uid -> python override (synthetic classes)

    def __repr__(self):
        return "<class %s>" % self.q


class Program:
    def __init__(self, units=None, repo=REPO):
        if units is None:
            units = cached(repo)
        self.fn = {}
        self.cls = {}
        self.glob = {}
        self.enums = {}
        self.units = [u["main"] for u in units]
        for u in units:
            for f in u["functions"]:
                if f["u"] not in self.fn:
                    f["main"] = u["main"]
                    self.fn[f["u"]] = f
            for c in u["classes"]:
                q = c["q"]
                if q not in self.cls:
                    self.cls[q] = Class(c)
                    self.cls[q].main = u["main"]
            for g in u["globals"]:
                if g["gu"] not in self.glob or (g.get("isdef") and not self.glob[g["gu"]].get("isdef")):
                    g["main"] = u["main"]
                    self.glob[g["gu"]] = g
            for e in u["enums"]:
                self.enums[e["q"]] = e
        self.ov = {}
        self.mdecl = {}
        for c in self.cls.values():
            for m in c.methods:
                self.ov[m["u"]] = m["ov"]
                self.mdecl[m["u"]] = (c, m)
        for f in self.fn.values():
            if f.get("ov") and f["u"] not in self.ov:
                self.ov[f["u"]] = f["ov"]
        self._root = {}
        self._vt = {}
        self._lin = {}
        self.byname = {}
        for f in self.fn.values():
            self.byname.setdefault(f["q"], []).append(f)

    # ---- classes
    def find_class(self, q, main=None):
        if main is not None:
            c = self.cls.get(q + "@" + main)
            if c is not None:
                return c
        return self.cls.get(q)

    def root(self, u):
        r = self._root.get(u)
        if r is None:
            o = self.ov.get(u)
            r = self.root(o[0]) if o else u
            self._root[u] = r
        return r

    def lin(self, q):
        """The class and its bases, most derived first."""
        r = self._lin.get(q)
        if r is None:
            c = self.cls.get(q)
            if c is None:
                return [q]
            r = [q]
            for b in c.bases:
                for x in self.lin(b):
                    if x not in r:
                        r.append(x)
            self._lin[q] = r
        return r

    def is_a(self, q, base):
        return base in self.lin(q)

    def vtable(self, q):
        v = self._vt.get(q)
        if v is None:
            v = {}
            for cq in reversed(self.lin(q)):
                c = self.cls.get(cq)
                if c is None:
                    continue
                for m in c.methods:
                    if m["virt"] and m["kind"] == "m":
                        v[self.root(m["u"])] = m["u"]
                for r, f in c.py.items():
                    v[r] = f
            self._vt[q] = v
        return v

    def subclasses(self, base, concrete=True):
        return sorted(q for q, c in self.cls.items() if base in self.lin(q) and not (concrete and c.abstract) and not c.py)

    def all_fields(self, q):
        out = []
        for cq in reversed(self.lin(q)):
            c = self.cls.get(cq)
            if c:
                out += [(cq, f) for f in c.fields]
        return out

    def methods(self, q, name, nargs=None):
        """Methods called `name` visible in class q, most derived first (declarations)."""
        out = []
        for cq in self.lin(q):
            c = self.cls.get(cq)
            if c is None:
                continue
            for m in c.methods:
                if m["n"] == name and m["kind"] == "m":
                    req = sum(1 for p in m["pt"] if not p["d"])
                    if nargs is None or req <= nargs <= len(m["pt"]):
                        out.append((c, m))
        return out


def loc(f):
    return "%s:%d" % (f["file"], f["l"])
