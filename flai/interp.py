"""Abstract interpreter for the resolved C++ program.

Domain: scalars are intervals with a NaN flag and a hash-consed value number (flai.num); booleans may be unknown; the heap is
a graph of abstract objects with allocation sites, ownership and lifetimes; containers have known cardinality; text is a
sequence of characters and opaque atoms (a number that is not a constant is one atom). Where a branch is undecided the
trace is partitioned: the analysis follows each outcome, narrowing the operands of the comparison. Reads of uninitialised,
dead or out-of-range storage, double releases and escaping exceptions out of noexcept functions are reported."""
import math
import os
import sys
from . import num as N
from .num import Num

sys.setrecursionlimit(20000)
DEBUG = bool(os.environ.get("FLAI_DEBUG"))


class Undecided(Exception):
    """The analysis does not know the construct (or ran out of budget): the obligation is not decided."""


class UB(Exception):
    def __init__(self, what, where=None):
        Exception.__init__(self, what)
        self.what = what
        self.where = where


class CppThrow(Exception):
    def __init__(self, obj, where=None):
        Exception.__init__(self, "throw")
        self.obj = obj
        self.where = where


class _Sent:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNINIT = _Sent("<uninitialised>")
DEAD = _Sent("<dead>")
BRK = _Sent("break")
CNT = _Sent("continue")
RET = _Sent("return")
NPOS = (1 << 64) - 1


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=UNINIT):
        self.v = v

    def __repr__(self):
        return "Cell(%r)" % (self.v,)


class UBool:
    """A boolean input of unknown value."""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "bool?%s" % (self.tag,)


class FnRef:
    __slots__ = ("u", "q", "name")

    def __init__(self, u, q, name):
        self.u, self.q, self.name = u, q, name

    def __eq__(self, o):
        return isinstance(o, FnRef) and o.u == self.u

    def __hash__(self):
        return hash(self.u)

    def __repr__(self):
        return "&%s" % self.q


class Lam:
    __slots__ = ("node", "env", "this", "comp", "alive")

    def __init__(self, node, env, this, comp):
        self.node, self.env, self.this, self.comp = node, env, this, comp
        self.alive = True


class Obj:
    __slots__ = ("cls", "dyn", "f", "alive", "site", "label", "ext")

    def __init__(self, cls):
        self.cls = cls      # class name
        self.dyn = cls
        self.f = {}
        self.alive = True
        self.site = None
        self.label = None
        self.ext = None

    def __repr__(self):
        return "<%s%s>" % (self.cls.split("::")[-1], ":" + self.label if self.label else "")

    def get(self, name):
        """Field by name, most derived class first (report helper)."""
        for (c, n), v in self.f.items():
            if n == name:
                return v
        raise KeyError(name)


class Fr:
    __slots__ = ("l", "this", "temps", "fn", "line", "locs", "ret", "va", "cls", "outer")

    def __init__(self, fn, this):
        self.l = {}
        self.this = this
        self.temps = None
        self.fn = fn
        self.line = fn["l"] if fn else 0
        self.locs = []
        self.ret = None
        self.va = None
        self.outer = None


class Violated(Exception):
    """Raised by a scenario when an abstract value definitely contradicts the property on this trace."""


class SpecDone(Exception):
    pass


def strip_type(t):
    t = t.strip()
    while True:
        if t.endswith("&&"):
            t = t[:-2].rstrip()
        elif t.endswith("&"):
            t = t[:-1].rstrip()
        elif t.startswith("const "):
            t = t[6:]
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.startswith("volatile "):
            t = t[9:]
        else:
            return t


_split_cache = {}


def is_ptr_t(t):
    t = t.rstrip()
    while t.endswith("const") or t.endswith("volatile"):
        t = t[:-5].rstrip() if t.endswith("const") else t[:-8].rstrip()
    return t.endswith("*") or "(*)" in t and fnptr(t)


def fnptr(t):
    """A pointer to function (not a template that mentions one)."""
    i = t.find("(*")
    return i >= 0 and t.count("<", 0, i) <= t.count(">", 0, i)


def template_args(t):
    """'std::map<A, B, C>' -> ['A', 'B', 'C']"""
    r = _split_cache.get(t)
    if r is not None:
        return r
    i = t.find("<")
    out = []
    if i >= 0:
        depth = 0
        cur = ""
        for c in t[i + 1:]:
            if c in "<([":
                depth += 1
            elif c in ")]":
                depth -= 1
            elif c == ">":
                if depth == 0:
                    break
                depth -= 1
            if c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += c
        out.append(cur.strip())
    _split_cache[t] = out
    return out


INT_BITS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "short": (16, True),
            "unsigned short": (16, False), "unsigned char": (8, False), "signed char": (8, True), "long long": (64, True),
            "unsigned long long": (64, False), "bool": (1, False), "char": (8, True)}


def is_float_t(t):
    return t in ("double", "float", "long double")


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.compiled = {}
        self.ticks = None
        self.hooks = {}          # qualified name -> python function(I, this, args, node) or NotImplemented to continue
        self.stub_fns = {}
        self.budget = 3000000
        self.maxdepth = 400
        self.visited = set()     # functions analysed (uids)
        self.reset()
        from . import stdlib
        self.std = stdlib

    # ------------------------------------------------------------------ state of one trace
    def reset(self, script=()):
        self.script = list(script)
        self.pos = 0
        self.widths = []
        self.choices = []        # descriptions
        self.facts = {}
        self.refine = {}
        self.exact = True
        self.heap = {}
        self.globals = {}
        self.stack = []
        self.steps = 0
        self.events = []
        self.out = []
        self.atoms = {}
        self.atom_rev = {}
        self.files = {}
        self.bools = {}
        self.exc = []
        self.pathcond = []
        self.const_notes = set()

    def where(self):
        for fr in reversed(self.stack):
            if fr.fn and fr.fn.get("file"):
                return "%s:%d (%s)" % (fr.fn["file"], fr.line, fr.fn["q"])
        return "?"

    def trace(self):
        return ["%s:%d %s" % (fr.fn["file"], fr.line, fr.fn["q"]) for fr in self.stack if fr.fn]

    def ub(self, what):
        raise UB(what, self.where())

    def choose(self, n, what):
        if n == 1:
            return 0
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
            self.script.append(0)
        self.widths.append(n)
        self.pos += 1
        self.choices.append((what, c))
        return c

    # ------------------------------------------------------------------ numbers
    def R(self, n):
        r = self.refine
        if r and n._tag is not None:
            m = r.get(n._tag)
            if m is not None:
                return m
        return n

    def num(self, v):
        if v.__class__ is Num:
            return self.R(v)
        if v.__class__ is bool or v.__class__ is int:
            return Num(float(v))
        if v is UNINIT:
            self.ub("read of an uninitialised value")
        if isinstance(v, UBool):
            return Num(float(self.truth(v)))
        raise Undecided("number expected, got %r" % (v,))

    def possible(self, a, b):
        ords = N.orderings(a, b)
        key = (a.tag, b.tag)
        f = self.facts.get(key)
        if f is not None:
            ords = [o for o in ords if o in f]
        return ords, key

    SETS = {"<": "<", "<=": "<=", ">": ">", ">=": ">=", "==": "=", "!=": "<>u"}

    def compare(self, op, a, b):
        a, b = self.num(a), self.num(b)
        ts = self.SETS[op]
        ords, key = self.possible(a, b)
        T = [o for o in ords if o in ts]
        F = [o for o in ords if o not in ts]
        if not ords:
            raise SpecDone("infeasible")
        if not F:
            return True
        if not T:
            return False
        c = self.choose(2, "%s: %r %s %r" % (self.where(), a, op, b))
        self.restrict(a, b, T if c == 0 else F, key)
        self.pathcond.append((c == 0, op, a, b))
        return c == 0

    def restrict(self, a, b, keep, key):
        inv = {"<": ">", ">": "<", "=": "=", "u": "u"}
        self.facts[key] = "".join(keep)
        self.facts[(key[1], key[0])] = "".join(inv[o] for o in keep)
        la, lb = N.is_leaf(a.tag), N.is_leaf(b.tag)
        if not ((la or a.is_point()) and (lb or b.is_point())):
            self.exact = False
        lo_a, hi_a, na = a.lo, a.hi, a.nan
        lo_b, hi_b, nb = b.lo, b.hi, b.nan
        if "u" not in keep:
            na = nb = False
            if ">" not in keep:
                if "=" in keep:
                    hi_a, lo_b = min(hi_a, b.hi), max(lo_b, a.lo)
                else:
                    hi_a, lo_b = min(hi_a, N._dn(b.hi) if b.hi != N.INF else b.hi), max(lo_b, N._up(a.lo) if a.lo != -N.INF else a.lo)
            if "<" not in keep:
                if "=" in keep:
                    lo_a, hi_b = max(lo_a, b.lo), min(hi_b, a.hi)
                else:
                    lo_a, hi_b = max(lo_a, N._up(b.lo) if b.lo != -N.INF else b.lo), min(hi_b, N._dn(a.hi) if a.hi != N.INF else a.hi)
        elif keep == ["u"] or keep == "u":
            if not a.nan:
                lo_b, hi_b = N.INF, -N.INF
            elif not b.nan:
                lo_a, hi_a = N.INF, -N.INF
        if (lo_a, hi_a, na) != (a.lo, a.hi, a.nan) and not a.is_point():
            self.refine[a.tag] = Num(lo_a, hi_a, na, a.tag, a.isint)
        if (lo_b, hi_b, nb) != (b.lo, b.hi, b.nan) and not b.is_point():
            self.refine[b.tag] = Num(lo_b, hi_b, nb, b.tag, b.isint)

    def truth(self, v):
        if v is True or v is False:
            return v
        c = v.__class__
        if c is UBool:
            r = self.bools.get(v.tag)
            if r is None:
                r = self.choose(2, "%s: %s" % (self.where(), v.tag)) == 0
                self.bools[v.tag] = r
            return r
        if c is int:
            return v != 0
        if c is Num:
            return self.compare("!=", v, Num(0.0))
        if c is str:
            return v != "\0"
        if v is UNINIT:
            self.ub("branch on an uninitialised value")
        if v is None:
            return False
        return True

    # ------------------------------------------------------------------ integer helpers
    def wrap(self, v, t):
        if v.__class__ is not int and v.__class__ is not bool:
            return v
        b = INT_BITS.get(t)
        if b is None:
            return v
        bits, signed = b
        if t == "bool":
            return bool(v)
        if signed:
            if not (-(1 << (bits - 1)) <= v < (1 << (bits - 1))):
                self.ub("signed integer overflow (%s)" % t)
            return v
        return v & ((1 << bits) - 1)

    def arith(self, op, a, b, t):
        ca, cb = a.__class__, b.__class__
        if ca is Num or cb is Num:
            if ca is str or cb is str:
                raise Undecided("character arithmetic on an unknown number")
            x, y = self.num(a), self.num(b)
            if op == "+":
                r = N.add(x, y)
            elif op == "-":
                r = N.sub(x, y)
            elif op == "*":
                r = N.mul(x, y)
            elif op == "/":
                if not is_float_t(t):
                    if y.is_point() and y.lo == 0:
                        self.ub("integer division by zero")
                    r = N.div(x, y)
                    r = Num(math.trunc(r.lo) if abs(r.lo) != N.INF else r.lo, math.trunc(r.hi) if abs(r.hi) != N.INF else r.hi, False, N.cons("idiv", x.tag, y.tag))
                else:
                    r = N.div(x, y)
            elif op == "%":
                r = N.fmod(x, y)
            elif op in ("<", ">", "<=", ">=", "==", "!="):
                return self.compare(op, x, y)
            elif op == "&&":
                return self.truth(a) and self.truth(b)
            elif op == "||":
                return self.truth(a) or self.truth(b)
            else:
                raise Undecided("operator %s on unknown numbers" % op)
            if not is_float_t(t):
                if r.is_point() and float(r.lo).is_integer():
                    return self.wrap(int(r.lo), t)
                r.isint = True
            elif t == "float" and r.is_point():
                import struct
                r = Num(struct.unpack("f", struct.pack("f", r.lo))[0])
            return r
        if ca is UBool:
            a = self.truth(a)
            ca = bool
        if cb is UBool:
            b = self.truth(b)
            cb = bool
        if a is UNINIT or b is UNINIT:
            self.ub("use of an uninitialised value")
        if (ca is int or ca is bool) and (cb is int or cb is bool):
            if op == "+":
                return self.wrap(a + b, t)
            if op == "-":
                return self.wrap(a - b, t)
            if op == "*":
                return self.wrap(a * b, t)
            if op == "/" or op == "%":
                if b == 0:
                    self.ub("integer division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return self.wrap(q if op == "/" else a - q * b, t)
            if op == "<":
                return a < b
            if op == ">":
                return a > b
            if op == "<=":
                return a <= b
            if op == ">=":
                return a >= b
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
            if op == "&":
                return (a & b) if t != "bool" else bool(a & b)
            if op == "|":
                return (a | b) if t != "bool" else bool(a | b)
            if op == "^":
                return a ^ b
            if op == "<<":
                return self.wrap(a << b, t)
            if op == ">>":
                return a >> b
            raise Undecided("integer operator " + op)
        if (ca is str or cb is str) and t.rstrip().endswith("*"):
            raise Undecided("arithmetic on a pointer into a text")
        # characters
        if ca is str and len(a) == 1 and cb is str and len(b) == 1 and op in ("<", ">", "<=", ">=", "==", "!="):
            return self.arith(op, ord(a), ord(b), t)
        if (ca is str and cb is int) or (ca is int and cb is str):
            return self.arith(op, ord(a) if ca is str else a, ord(b) if cb is str else b, t)
        # pointers
        if op in ("==", "!="):
            same = a is b or (ca is FnRef and cb is FnRef and a.u == b.u)
            if not same and ca is self.std.ElPtr and cb is self.std.ElPtr:
                same = a.key() == b.key()
            return same if op == "==" else not same
        if ca is self.std.ElPtr:
            return a.arith(self, op, b)
        raise Undecided("operator %s on %r and %r" % (op, a, b))

    # ------------------------------------------------------------------ classes and objects
    def resolve_class(self, q, main=None):
        c = self.p.find_class(q, main)
        return c.q if c else q

    def destroy(self, o):
        """Run the destructor of o and of everything inside it."""
        c = o.__class__
        if c is Cell:
            o.v = DEAD
            return
        if c is Obj:
            if not o.alive:
                self.ub("object %r destroyed twice" % o)
            self.destroy_level(o, o.cls)
            o.alive = False
            self.heap.pop(o, None)
            return
        if c is Lam:
            return
        if hasattr(o, "destroy_std"):
            if not o.alive:
                self.ub("object destroyed twice")
            o.alive = False
            o.destroy_std(self)

    def destroy_level(self, o, q):
        c = self.p.cls.get(q)
        if c is None:
            return
        o.dyn = q
        d = c.d.get("_dtor", 0)
        if d == 0:
            d = None
            for m in c.methods:
                if m["kind"] == "dtor":
                    f = self.p.fn.get(m["u"])
                    if f and f.get("body"):
                        d = m["u"]
            c.d["_dtor"] = d
        if d:
            self.call_uid(d, o, [])
            o.dyn = q
        for f in reversed(c.fields):
            v = o.f.get((q, f["n"]))
            if v is None:
                continue
            if "&" in f["t"][-2:]:
                continue
            self.destroy(v)
        for b in c.bases:
            self.destroy_level(o, b)

    def delete(self, p, static_t=None):
        if p is None:
            return
        if p is UNINIT or p is DEAD:
            self.ub("delete of an uninitialised or dead pointer")
        if p.__class__ is Obj and not p.alive:
            self.ub("double release: %r was already destroyed" % p)
        if p not in self.heap:
            self.ub("delete of storage that was not allocated with new (%r)" % (p,))
        if p.__class__ is Obj and static_t is not None and static_t != p.cls and static_t in self.p.cls:
            virt = False
            for q in self.p.lin(static_t):
                c = self.p.cls.get(q)
                if c:
                    virt = virt or any(m["kind"] == "dtor" and m["virt"] for m in c.methods)
                elif q.startswith("std::exception"):
                    virt = True
            if not virt:
                self.ub("delete of a %s through %s, which has no virtual destructor" % (p.cls, static_t))
        del self.heap[p]
        self.destroy(p)

    def reachable(self, roots):
        """Every object, cell and container that can be reached from the given values."""
        seen, todo = {}, list(roots)
        while todo:
            v = todo.pop()
            c = v.__class__
            if v is None or c in (int, float, str, bool, Num, UBool, FnRef) or id(v) in seen:
                continue
            seen[id(v)] = v
            if c is Obj:
                todo.extend(v.f.values())
                if v.ext.__class__ is not str:
                    todo.append(v.ext)
            elif c is Cell:
                todo.append(v.v)
            elif c in (list, tuple):
                todo.extend(v)
            elif c is dict:
                todo.extend(v.values())
            elif c is Lam:
                todo.append(v.env)
            else:
                for k in getattr(c, "__mro__", ()):
                    for a in getattr(k, "__slots__", ()):
                        x = getattr(v, a, None)
                        if x.__class__ is dict:
                            todo.extend(x.values())
                            todo.extend(x.keys())
                        elif x.__class__ in (list, tuple) or hasattr(x, "copy_std") or x.__class__ in (Obj, Cell, Lam):
                            todo.append(x)
        return seen

    def leaks(self, roots=()):
        """Allocations that nothing reachable from the roots or from global state refers to."""
        seen = self.reachable(list(self.globals.values()) + list(roots))
        return [o for o in self.heap if id(o) not in seen]

    def on_heap(self, o, site=None):
        self.heap[o] = site or self.where()
        if o.__class__ is Obj:
            o.site = self.heap[o]
        return o

    def copy(self, v, t=None, move=False):
        """Copy-construct (or move-construct) a new object from v."""
        c = v.__class__
        if c is Obj:
            if not v.alive:
                self.ub("copy of a destroyed object %r" % v)
            return self.copy_obj(v, v.cls if t is None else t, move)
        if c is Cell:
            return Cell(self.read(v))
        if c is Lam:
            return v
        if hasattr(v, "copy_std"):
            if not v.alive:
                self.ub("copy of a destroyed object")
            return v.copy_std(self, move)
        return v

    def copy_obj(self, v, q, move=False):
        c = self.p.cls.get(q)
        if c is None:
            raise Undecided("copy of unknown class %s" % q)
        cand = None
        for m in c.methods:
            if m["kind"] == "ctor" and (m["copy"] or (move and m["move"])) and not m["del"]:
                if cand is None or m["move"]:
                    cand = m
        if cand is None:
            for m in c.methods:
                if m["kind"] == "ctor" and (m["copy"]) and m["del"]:
                    self.ub("copy of non-copyable %s" % q)
        o = Obj(q)
        f = self.p.fn.get(cand["u"]) if cand is not None else None
        if f is not None and not f.get("defaulted"):
            self.run_ctor(cand["u"], o, q, [v])
        else:
            self.memberwise(o, v, q, bool(move and (cand is None or cand["move"])))
        return o

    def copy_cand(self, q, move):
        """The user-provided copy (or move) constructor of class q, if any."""
        cand = None
        for m in self.p.cls[q].methods:
            if m["kind"] == "ctor" and (m["copy"] or (move and m["move"])) and not m["del"]:
                if cand is None or m["move"]:
                    cand = m
        return cand

    def memberwise(self, o, v, q, move=False):
        """Defaulted copy/move construction of the q part of o."""
        c = self.p.cls[q]
        for b in c.bases:
            if b in self.p.cls:
                m = self.copy_cand(b, move)
                f = self.p.fn.get(m["u"]) if m else None
                if f is not None and not f.get("defaulted"):
                    self.run_ctor(m["u"], o, b, [v])
                else:
                    self.memberwise(o, v, b, bool(move and (m is None or m["move"])))
        for f in c.fields:
            k = (q, f["n"])
            if k in v.f:
                s = v.f[k]
                if f["t"].endswith("&"):
                    o.f[k] = s
                elif s.__class__ is Cell:
                    o.f[k] = Cell(s.v)
                else:
                    o.f[k] = self.copy(s, move=move)
        o.dyn = o.cls

    def assign_memberwise(self, o, v, q, move=False):
        c = self.p.cls[q]
        for b in c.bases:
            if b in self.p.cls:
                u = None
                for m in self.p.cls[b].methods:
                    if m["n"] == "operator=" and (m["copyasg"] or (move and m["moveasg"])) and not m["del"]:
                        if u is None or m["moveasg"]:
                            u = m
                f = self.p.fn.get(u["u"]) if u else None
                if u is not None and f is None and not u["def"] and not u["implicit"]:
                    raise Undecided("no body for operator= of %s" % b)
                if f is not None and not f.get("defaulted") and f.get("body"):
                    self.call_uid(u["u"], o, [v])
                else:
                    self.assign_memberwise(o, v, b, bool(move and (u is None or u["moveasg"])))
        for f in c.fields:
            k = (q, f["n"])
            if k in v.f:
                self.assign(o.f[k], v.f[k], move)
        return o

    def assign(self, dst, src, move=False):
        c = dst.__class__
        if c is Cell:
            dst.v = src.v if src.__class__ is Cell else src
        elif c is Obj:
            self.assign_obj(dst, src, move)
        else:
            dst.assign_std(self, src, move)
        return dst

    def assign_obj(self, dst, src, move=False):
        u = None
        for cl, m in self.p.methods(dst.cls, "operator=", 1):
            if cl.q == dst.cls and (m["copyasg"] or (move and m["moveasg"])) and not m["del"]:
                if u is None or m["moveasg"]:
                    u = m
        if u is not None:
            f = self.p.fn.get(u["u"])
            if f is None and not u["def"] and not u["implicit"]:
                raise Undecided("no body for operator= of %s" % dst.cls)
            if f is not None and f.get("body") and not f.get("defaulted"):
                return self.call_uid(u["u"], dst, [src])
        return self.assign_memberwise(dst, src, dst.cls, bool(move and (u is None or u["moveasg"])))

    def read(self, lv):
        v = lv.v
        if v is UNINIT:
            self.ub("read of an uninitialised value")
        if v is DEAD:
            self.ub("read of storage after its lifetime ended")
        return v

    def check_alive(self, o, what="access"):
        if o is None:
            self.ub("null pointer dereferenced")
        if o is UNINIT or o is DEAD:
            self.ub("uninitialised pointer dereferenced")
        if o.__class__ is not str and o.__class__ is not Cell and not getattr(o, "alive", True):
            self.ub("%s to a destroyed object (%r)" % (what, o))
        return o

    def alloc_fields(self, o, q):
        for f in self.p.cls[q].fields:
            pass

    def run_ctor(self, u, o, q, args, site=None):
        """Construct the q part of o with constructor u."""
        f = self.p.fn.get(u)
        if f is None or f.get("defaulted") or (f.get("body") is None and not f.get("inits")):
            return self.trivial_ctor(o, q, args, bool(f and f.get("move")))
        self.visited.add(u)
        comp = self.fn_comp(u)
        fr = Fr(f, o)
        self.bind(fr, comp, args, f)
        if len(self.stack) > self.maxdepth:
            raise Undecided("recursion too deep in %s" % f["q"])
        self.stack.append(fr)
        done = []
        try:
            for it in comp.inits:
                kind = it[0]
                fr.line = it[3] or fr.line
                if kind == "base":
                    bq, e, args_c, bu = it[1], it[2], it[4], it[5]
                    if bq in self.p.cls:
                        temps, fr.temps = fr.temps, []
                        try:
                            if args_c is None:      # not a constructor expression
                                v = e(fr)
                                self.memberwise(o, v, bq)
                            else:
                                a = [x(fr) for x in args_c]
                                self.run_ctor(bu, o, bq, a)
                        finally:
                            self.end_temps(fr, temps)
                        done.append(("base", bq))
                    else:
                        pass
                elif kind == "deleg":
                    temps, fr.temps = fr.temps, []
                    try:
                        a = [x(fr) for x in it[4]]
                        self.run_ctor(it[5], o, q, a)
                    finally:
                        self.end_temps(fr, temps)
                    o.dyn = q
                    done.append(("all", q))
                else:
                    o.dyn = q
                    n, t, e = it[1], it[4], it[2]
                    temps, fr.temps = fr.temps, []
                    try:
                        v = e(fr)
                        if not t.endswith("&"):
                            if is_ptr_t(t):
                                v = Cell(v)
                            elif self.is_obj(v):
                                if fr.temps and v in fr.temps:
                                    fr.temps.remove(v)
                                elif it[5]:
                                    v = self.copy(v)
                            else:
                                v = Cell(v)
                    finally:
                        self.end_temps(fr, temps)
                    o.f[(q, n)] = v
                    if not t.endswith("&"):
                        done.append(("f", v))
            o.dyn = q
            for fl in self.p.cls[q].fields:
                k = (q, fl["n"])
                if k not in o.f:
                    o.f[k] = self.std.default_uninit(self, fl["t"])
            if comp.body is not None:
                comp.body(fr)
        except CppThrow:
            for kind, x in reversed(done):
                if kind == "f":
                    self.destroy(x)
                elif kind == "base":
                    self.destroy_level(o, x)
                else:
                    self.destroy_level(o, x)
            self.heap.pop(o, None)
            o.alive = False
            raise
        finally:
            self.stack.pop()
        o.dyn = q

    def trivial_ctor(self, o, q, args, move=False):
        if args and args[0].__class__ is Obj and args[0] is not None:
            self.memberwise(o, args[0], q, move)
            o.dyn = q
            return
        c = self.p.cls.get(q)
        if c is None:
            raise Undecided("constructor of unknown class " + q)
        for b in c.bases:
            if b in self.p.cls:
                self.default_ctor(o, b)
        for f in c.fields:
            k = (q, f["n"])
            if f.get("init") is not None:
                e = self.cx(f["init"])
                fr = Fr({"l": f["l"], "file": c.file, "q": q, "main": c.main}, o)
                fr.temps = []
                v = e(fr)
                o.f[k] = v if self.is_obj(v) else Cell(v)
            else:
                o.f[k] = self.std.default_uninit(self, f["t"])
        o.dyn = q

    def default_ctor(self, o, q):
        for m in self.p.cls[q].methods:
            if m["kind"] == "ctor" and m.get("dflt") and m["u"] in self.p.fn:
                return self.run_ctor(m["u"], o, q, self.default_args(m["u"]))
        self.trivial_ctor(o, q, [])

    def default_args(self, u, have=0):
        f = self.p.fn[u]
        out = []
        for prm in f["params"][have:]:
            if prm.get("def") is None:
                raise Undecided("no default argument for %s in %s" % (prm["n"], f["q"]))
            fr = Fr(f, None)
            fr.temps = []
            saved, self.main = getattr(self, "main", None), f.get("main")
            try:
                out.append(self.cx(prm["def"])(fr))
            finally:
                self.main = saved
        return out

    @staticmethod
    def is_obj(v):
        c = v.__class__
        return c is Obj or c is Lam or hasattr(v, "copy_std")

    def end_temps(self, fr, saved):
        ts = fr.temps
        fr.temps = saved
        if ts:
            for t in reversed(ts):
                if t.__class__ is Obj and not t.alive:
                    continue
                self.destroy(t)

    # ------------------------------------------------------------------ calls
    class Comp:
        __slots__ = ("params", "body", "inits", "isvoid", "retref", "noexc", "va")

    def fn_comp(self, u):
        c = self.compiled.get(u)
        if c is None:
            c = self.compile_fn(self.p.fn[u])
            self.compiled[u] = c
        return c

    def compile_fn(self, f):
        c = self.Comp()
        self.main = f.get("main")
        c.params = [(p["id"], p["t"].rstrip().endswith("&"), p["t"]) for p in f["params"]]
        c.noexc = bool(f.get("noexcept")) or f.get("kind") == "dtor"
        c.retref = f["rt"].rstrip().endswith("&")
        c.inits = []
        for i in f.get("inits") or []:
            e = i["e"]
            if "base" in i or "deleg" in i:
                en = e
                while en and en["k"] in ("bte", "mte"):
                    en = en["e"]
                if en and en["k"] == "ctor":
                    ac, bu = [self.cx(a) for a in en["args"]], en["fn"]
                else:
                    ac, bu = None, None
                if "base" in i:
                    c.inits.append(("base", i["base"], self.cx(e) if ac is None else None, i["l"], ac, bu))
                else:
                    c.inits.append(("deleg", None, None, i["l"], ac, bu))
            else:
                # an lvalue of class type initialising a member is copied (arrays, trivial types)
                needcopy = e is not None and e["k"] in ("ref", "mem")
                c.inits.append(("f", i["f"], self.cx(e), i["l"], i["t"], needcopy))
        c.body = self.cs(f["body"]) if f.get("body") else None
        return c

    def bind(self, fr, comp, args, f):
        ps = comp.params
        if len(args) < len(ps):
            args = list(args) + self.default_args(f["u"], len(args))
        l = fr.l
        for (pid, ref, t), a in zip(ps, args):
            if ref:
                if not (a.__class__ is Cell or self.is_obj(a) or hasattr(a, "v")):
                    a = Cell(a)
                l[pid] = a
            elif self.is_obj(a) and not is_ptr_t(t):
                l[pid] = a
            else:
                l[pid] = Cell(a)
        if len(args) > len(ps):
            fr.va = list(args[len(ps):])

    def call_uid(self, u, this, args):
        f = self.p.fn.get(u)
        if f is None:
            raise Undecided("call of a function without a body: %s" % u)
        h = self.hooks.get(f["q"])
        if h is not None:
            r = h(self, this, args, f)
            if r is not NotImplemented:
                return r
        return self.call_body(u, f, this, args)

    def call_body(self, u, f, this, args):
        if f.get("body") is None and f.get("kind") is None:
            if f.get("copyasg") or f.get("moveasg"):
                return self.assign_memberwise(this, args[0], f["cls"], bool(f.get("moveasg")))
        comp = self.compiled.get(u)
        if comp is None:
            comp = self.fn_comp(u)
        self.visited.add(u)
        fr = Fr(f, this)
        self.bind(fr, comp, args, f)
        st = self.stack
        if len(st) > self.maxdepth:
            raise Undecided("recursion too deep in %s" % f["q"])
        st.append(fr)
        try:
            if comp.body is not None:
                r = comp.body(fr)
                if r is RET:
                    return fr.ret
            if f["rt"] != "void" and f.get("kind") is None and f["q"] != "main":
                self.ub("control reaches the end of non-void function %s" % f["q"])
            return None
        except CppThrow as e:
            if comp.noexc:
                self.ub("exception leaves noexcept function %s" % f["q"])
            raise
        finally:
            st.pop()

    def invoke(self, u, o, args, virt):
        if o.__class__ is Obj:
            if not o.alive:
                self.ub("call of a member function on a destroyed object (%r)" % o)
            if virt:
                t = self.p.vtable(o.dyn).get(self.p.root(u))
                if t is None:
                    raise Undecided("no override for %s in %s" % (u, o.dyn))
                if t.__class__ is not str:
                    return t(self, o, args)
                m = self.p.fn.get(t)
                if m is None:
                    if o.dyn != o.cls:
                        self.ub("pure virtual call during construction or destruction of %s" % o.dyn)
                    raise Undecided("pure virtual or undefined %s" % t)
                return self.call_uid(t, o, args)
            return self.call_uid(u, o, args)
        if o is None:
            self.ub("member function called on a null pointer")
        if o is UNINIT or o is DEAD:
            self.ub("member function called on an uninitialised pointer")
        if o.__class__ is Lam or o.__class__ is Cell and o.v.__class__ is Lam:
            return self.call_value(o, args)
        raise Undecided("member call on %r" % (o,))

    def call_value(self, fv, args):
        """Call a function pointer, lambda or function object."""
        c = fv.__class__
        if c is Cell:
            return self.call_value(self.read(fv), args)
        if c is FnRef:
            f = self.p.fn.get(fv.u)
            if f is not None:
                return self.call_uid(fv.u, None, self.by_value(args, f["params"]))
            return self.std.call_free(self, fv.q, args, {"pt": [], "t": ""})
        if c is Lam:
            return self.call_lambda(fv, args)
        if c is Obj:
            for cl, m in self.p.methods(fv.cls, "operator()", len(args)):
                return self.call_uid(m["u"], fv, self.by_value(args, m["pt"]))
        if c is self.std.StdFunction:
            if fv.f is None:
                raise CppThrow(self.std.StdExc("std::bad_function_call"))
            return self.call_value(fv.f, args)
        if callable(fv):
            return fv(self, None, args)
        if fv is None:
            self.ub("call through a null function pointer")
        raise Undecided("call of %r" % (fv,))

    def by_value(self, args, params):
        """Arguments given as lvalue slots of a container, read where the parameter is no reference."""
        return [self.read(a) if a.__class__ is Cell and not p["t"].rstrip().endswith("&") else a for a, p in zip(args, params)] + list(args[len(params):])

    def call_lambda(self, lam, args):
        n = lam.node
        fr = Fr({"q": "lambda", "file": lam.comp[2]["file"], "l": n["l"], "rt": n["rt"], "main": lam.comp[2].get("main")}, lam.this)
        fr.l.update(lam.env)
        fr.outer = lam.comp[1]
        for prm, a in zip(n["params"], args):
            pointer = prm["t"].rstrip().removesuffix("const").rstrip().endswith("*")
            if not pointer and strip_type(prm["t"]).startswith("std::basic_string<"):
                v = self.val(a) if a.__class__ is Cell else a
                if v.__class__ is str:
                    a = self.std.SStr(v)
                elif v.__class__.__name__ == "ElPtr":
                    a = self.std.SStr(self.std.text(self, v))
            if prm["t"].endswith("&") or not pointer and self.is_obj(a) and a.__class__ is not Cell:
                fr.l[prm["id"]] = a if (a.__class__ is Cell or self.is_obj(a) or hasattr(a, "v")) else Cell(a)
                if not prm["t"].endswith("&") and self.is_obj(a):
                    fr.l[prm["id"]] = self.copy(a)
            else:
                a = a.v if hasattr(a, "v") and not self.is_obj(a) else a
                pt = strip_type(prm["t"])
                if a.__class__ is int and is_float_t(pt):
                    a = self.num(a)
                elif a.__class__ is Num and pt in INT_BITS and not a.isint:
                    raise Undecided("number passed as integer")
                fr.l[prm["id"]] = Cell(a)
        self.stack.append(fr)
        try:
            if lam.comp[0](fr) is RET:
                return fr.ret
            return None
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ python-side interface
    def coerce(self, v, t):
        st = strip_type(t)
        if v is None or self.is_obj(v) and v.__class__ is not Cell:
            return v
        if isinstance(v, float):
            v = Num(v) if v == v else N.NAN
        if isinstance(v, str) and st.startswith("std::basic_string"):
            return self.std.SStr(v)
        if isinstance(v, (list, tuple)) and st.startswith("std::vector"):
            et = template_args(st)[0]
            return self.std.Vec([self.std.as_slot(self, self.coerce(x, et)) for x in v], et)
        if isinstance(v, tuple) and st.startswith("std::pair"):
            a, b = template_args(st)[:2]
            return self.std.Pair(self.std.as_slot(self, self.coerce(v[0], a)), self.std.as_slot(self, self.coerce(v[1], b)))
        if isinstance(v, bool) or isinstance(v, int):
            if is_float_t(st):
                v = Num(float(v))
        if t.rstrip().endswith("&") and not hasattr(v, "v"):
            return Cell(v)
        return v

    def pick(self, cands, args, what):
        """Overload choice for calls made by the rules themselves (by arity, then by kind of argument)."""
        def ok(v, t):
            st = strip_type(t)
            if isinstance(v, str):
                return st.startswith("std::basic_string") or st.endswith("char *") or st == "char"
            if isinstance(v, bool):
                return st == "bool"
            if isinstance(v, (float, Num)):
                return is_float_t(st)
            if isinstance(v, int):
                return st in INT_BITS or is_float_t(st) or st.startswith(("fuzzylite::", "std::_Ios_"))
            if isinstance(v, (list, tuple)):
                return st.startswith("std::vector") or st.startswith("std::pair")
            if v is None:
                return st.endswith("*") or "(*)" in st
            if v.__class__ is Obj:
                b = st[:-1].strip() if st.endswith("*") else st
                b = strip_type(b)
                return self.p.is_a(v.cls, b)
            if v.__class__ is FnRef or callable(v):
                return fnptr(st) or "std::function" in st
            return True
        best = [m for m in cands if all(ok(a, p["t"]) for a, p in zip(args, m["pt"]))]
        if not best:
            raise Undecided("no overload of %s for %d arguments" % (what, len(args)))
        exact = [m for m in best if len(m["pt"]) == len(args)]
        return (exact or best)[0]

    def make(self, q, *args, heap=True, label=None):
        """Construct an object of class q with its public constructor; heap-allocated unless told otherwise."""
        q = q if q.startswith("fuzzylite::") or q in self.p.cls else "fuzzylite::" + q
        c = self.p.cls.get(q)
        if c is None:
            raise Undecided("no class %s" % q)
        cands = [m for m in c.methods if m["kind"] == "ctor" and sum(1 for p in m["pt"] if not p["d"]) <= len(args) <= len(m["pt"])]
        if not cands and not args:
            o = Obj(q)
            self.trivial_ctor(o, q, [])
        else:
            m = self.pick(cands, args, q + " constructor")
            a = [self.coerce(v, p["t"]) for v, p in zip(args, m["pt"])]
            o = Obj(q)
            self.run_ctor(m["u"], o, q, a)
        o.label = label
        if heap:
            self.on_heap(o, "scenario")
        return o

    def new_object(self, q, u, args):
        """Heap-allocate a q with the given constructor."""
        o = Obj(q)
        self.run_ctor(u, o, q, args)
        self.on_heap(o, "scenario")
        return o

    def call(self, o, name, *args):
        """Call the public member `name` on o with virtual dispatch."""
        self.check_alive(o)
        seen, cands = set(), []
        for cl, m in self.p.methods(o.cls, name, len(args)):
            r = (self.p.root(m["u"]))
            if r not in seen:
                seen.add(r)
                cands.append(m)
        if not cands:
            raise Undecided("no method %s/%d in %s" % (name, len(args), o.cls))
        m = self.pick(cands, args, o.cls + "::" + name)
        a = [self.coerce(v, p["t"]) for v, p in zip(args, m["pt"])]
        r = self.invoke(m["u"], o, a, m["virt"])
        return r

    def scall(self, q, *args):
        """Call a static member or free function by qualified name."""
        cands = self.p.byname.get(q)
        if not cands:
            raise Undecided("no function " + q)
        ms = []
        for f in cands:
            req = sum(1 for p in f["params"] if p.get("def") is None)
            if req <= len(args) and (len(args) <= len(f["params"]) or f.get("variadic")):
                ms.append({"pt": f["params"], "u": f["u"]})
        m = self.pick(ms, args[:max(len(x["pt"]) for x in ms)] if ms else args, q)
        a = [self.coerce(v, p["t"]) for v, p in zip(args, m["pt"])] + list(args[len(m["pt"]):])
        return self.call_uid(m["u"], None, a)

    def val(self, r):
        """Plain value of a result: Num, int, bool, str, None or object."""
        if r.__class__ is Cell:
            r = self.read(r)
        if r.__class__ is self.std.SStr:
            return r.v
        if r.__class__ is Num:
            return self.R(r)
        return r

    def get(self, o, name, *args):
        return self.val(self.call(o, name, *args))

    def synth(self, base, name, methods):
        """A class derived from `base` whose listed virtual members are opaque to the analysis (python models)."""
        q = "flai::" + name
        from .program import Class
        c = Class({"q": q, "name": name, "qual": q, "bases": [base], "fields": [], "methods": [], "abstract": False, "file": "-", "l": 0})
        c.main = None
        for n, fnc in methods.items():
            found = False
            for bq in self.p.lin(base):
                bc = self.p.cls.get(bq)
                for m in (bc.methods if bc else []):
                    if m["n"] == n and m["virt"]:
                        c.py[self.p.root(m["u"])] = fnc
                        found = True
            if not found:
                raise Undecided("%s has no virtual member %s" % (base, n))
        self.p.cls[q] = c
        self.p._lin.pop(q, None)
        self.p._vt.pop(q, None)
        return q

    def new_synth(self, q, heap=True, label=None, ext=None):
        o = Obj(q)
        o.ext = ext
        o.label = label
        self.default_ctor(o, self.p.cls[q].bases[0])
        o.dyn = q
        if heap:
            self.on_heap(o, "scenario")
        return o

    # ------------------------------------------------------------------ path enumeration
    def paths(self, scenario, limit=64):
        """Run scenario(I) on every trace; yields (outcome, value) with outcome in ok/throw/ub/undecided."""
        script = []
        n = 0
        while True:
            self.reset(script)
            try:
                r = ("ok", scenario(self))
            except CppThrow as e:
                r = ("throw", e)
            except UB as e:
                r = ("ub", e)
            except SpecDone:
                r = None
            except Violated as e:
                r = ("violated", e)
            except Undecided as e:
                r = ("undecided", e)
            except RecursionError:
                r = ("undecided", Undecided("recursion"))
            except (KeyError, AttributeError, IndexError, TypeError, ValueError, ZeroDivisionError, OverflowError, AssertionError) as e:
                if DEBUG:
                    raise
                r = ("undecided", Undecided("unsupported construct at %s: %s %s" % (self.where(), e.__class__.__name__, e)))
            if r is not None:
                yield r
            n += 1
            # next script
            s = self.script[:self.pos]
            w = self.widths
            while s and s[-1] + 1 >= w[len(s) - 1]:
                s.pop()
            if not s:
                return
            s[-1] += 1
            script = s
            if n >= limit:
                yield ("undecided", Undecided("more than %d traces" % limit))
                return

    # ------------------------------------------------------------------ statements
    def has_bte(self, n):
        if isinstance(n, dict):
            k = n.get("k")
            if k == "bte":
                return True
            if k == "lambda":
                return any(self.has_bte(x) for x in n["inits"])
            for v in n.values():
                if v.__class__ in (dict, list) and self.has_bte(v):
                    return True
        elif isinstance(n, list):
            return any(self.has_bte(x) for x in n)
        return False

    def full(self, n, claim=False):
        """Compile a full expression: its temporaries die at its end."""
        e = self.cx(n)
        if not self.has_bte(n):
            return e
        I = self

        def run(fr):
            saved = fr.temps
            fr.temps = []
            try:
                v = e(fr)
                if claim and fr.temps and I.is_obj(v):
                    for i, t in enumerate(fr.temps):
                        if t is v:
                            del fr.temps[i]
                            break
                return v
            finally:
                I.end_temps(fr, saved)
        return run

    def cs(self, n):
        if n is None:
            return None
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            k = n["k"]

            def bad(fr):
                raise Undecided("statement %s at %s" % (n.get("c", k), self.where()))
            return bad
        return m(n)

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("analysis budget exhausted at %s" % self.where())

    def s_block(self, n):
        ss = [self.cs(x) for x in n["b"] if x is not None and x["k"] != "nop"]
        needs = any(x is not None and x["k"] == "decl" for x in n["b"])
        I = self
        if not needs:
            if len(ss) == 1:
                return ss[0]

            def run(fr):
                for s in ss:
                    r = s(fr)
                    if r is not None:
                        return r
            return run

        def run2(fr):
            locs = fr.locs
            mark = len(locs)
            try:
                for s in ss:
                    r = s(fr)
                    if r is not None:
                        return r
            finally:
                if len(locs) > mark:
                    I.pop_scope(fr, mark)
        return run2

    def pop_scope(self, fr, mark):
        locs = fr.locs
        while len(locs) > mark:
            o = locs.pop()
            if o is fr.ret and o is not None:
                continue
            self.destroy(o)

    def s_decl(self, n):
        vs = []
        I = self
        for v in n["vars"]:
            vs.append(self.c_var(v))
        line = n["l"]

        def run(fr):
            fr.line = line
            I.steps += 1
            for f in vs:
                f(fr)
        return run

    def c_var(self, v):
        I = self
        vid = v["id"]
        t = v["t"]
        ref = t.rstrip().endswith("&")
        cls = v.get("cls")
        init = v.get("init")
        if v.get("static"):
            gu = v["gu"]
            e = self.full(init, True) if init else None

            def runs(fr):
                g = I.globals.get(gu)
                if g is None:
                    val = e(fr) if e else I.std.default_zero(I, t)
                    g = val if (ref or I.is_obj(val)) else Cell(val)
                    I.globals[gu] = g
                fr.l[vid] = g
            return runs
        if init is None:
            def run0(fr):
                fr.l[vid] = I.std.default_uninit(I, t)
            return run0
        if ref:
            # a temporary whose lifetime is extended joins the scope
            e0 = self.cx(init)

            def runr(fr):
                saved = fr.temps
                fr.temps = []
                try:
                    val = e0(fr)
                    owned = False
                    for i, x in enumerate(fr.temps):
                        if x is val:
                            del fr.temps[i]
                            owned = True
                            break
                finally:
                    I.end_temps(fr, saved)
                if not (val.__class__ is Cell or I.is_obj(val) or hasattr(val, "v")):
                    val = Cell(val)
                fr.l[vid] = val
                if owned:
                    fr.locs.append(val)
            return runr
        e = self.full(init, True)
        objt = cls is not None
        lvalue_init = init["k"] in ("ref", "mem")

        def run(fr):
            val = e(fr)
            if I.is_obj(val) and objt:
                fr.l[vid] = val
                fr.locs.append(val)
            else:
                fr.l[vid] = Cell(val)
        return run

    def s_expr(self, n):
        e = self.full(n["e"])
        line = n["l"]
        I = self

        def run(fr):
            fr.line = line
            I.steps += 1
            if I.steps > I.budget:
                I.tick()
            e(fr)
        return run

    def s_ret(self, n):
        line = n["l"]
        if n["e"] is None:
            def run0(fr):
                fr.line = line
                return RET
            return run0
        e = self.full(n["e"], True)
        I = self

        def run(fr):
            fr.line = line
            fr.ret = e(fr)
            return RET
        return run

    def s_if(self, n):
        c = self.full(n["c"])
        a, b = self.cs(n["a"]), self.cs(n["b"])
        var = self.c_var(n["var"]) if n.get("var") else None
        init = self.cs(n["init"]) if n.get("init") else None
        line = n["l"]
        I = self

        def run(fr):
            fr.line = line
            mark = len(fr.locs)
            if init:
                init(fr)
            if var:
                var(fr)
            try:
                v = c(fr)
                if v is not True and v is not False:
                    v = I.truth(v)
                if v:
                    return a(fr) if a else None
                return b(fr) if b else None
            finally:
                if len(fr.locs) > mark:
                    I.pop_scope(fr, mark)
        return run

    def loop(self, init, cond, inc, body, line, post=False, var=None):
        I = self

        def run(fr):
            fr.line = line
            mark = len(fr.locs)
            try:
                if init:
                    init(fr)
                first = post
                while True:
                    I.tick()
                    if not first:
                        if var:
                            m2 = len(fr.locs)
                            var(fr)
                        if cond is not None:
                            fr.line = line
                            v = cond(fr)
                            if v is not True and (v is False or not I.truth(v)):
                                return None
                    first = False
                    if body:
                        r = body(fr)
                        if r is not None:
                            if r is BRK:
                                return None
                            if r is RET:
                                return RET
                    if inc:
                        inc(fr)
            finally:
                if len(fr.locs) > mark:
                    I.pop_scope(fr, mark)
        return run

    def s_while(self, n):
        return self.loop(None, self.full(n["c"]), None, self.cs(n["b"]), n["l"], var=self.c_var(n["var"]) if n.get("var") else None)

    def s_do(self, n):
        return self.loop(None, self.full(n["c"]), None, self.cs(n["b"]), n["l"], post=True)

    def s_for(self, n):
        return self.loop(self.cs(n["init"]), self.full(n["c"]) if n["c"] else None, self.full(n["inc"]) if n["inc"] else None, self.cs(n["b"]), n["l"])

    def s_rfor(self, n):
        rng = self.cx(n["range"])
        var = n["var"]
        vid, t = var["id"], var["t"]
        ref = t.rstrip().endswith("&")
        body = self.cs(n["b"])
        line = n["l"]
        I = self

        def run(fr):
            fr.line = line
            saved = fr.temps
            fr.temps = []
            try:
                c = rng(fr)
                if c.__class__ is Cell and c.v.__class__ is I.std.Vec:
                    c = c.v
                I.check_alive(c)
                it, end = c.m_begin(I, []), c.m_end(I, [])
                while not it.same(end):
                    I.tick()
                    if not it.same(c.m_end(I, [])) and False:
                        pass
                    lv = it.deref(I)
                    mark = len(fr.locs)
                    if ref:
                        fr.l[vid] = lv
                    elif I.is_obj(lv):
                        o = I.copy(lv)
                        fr.l[vid] = o
                        fr.locs.append(o)
                    else:
                        fr.l[vid] = Cell(I.read(lv))
                    try:
                        r = body(fr) if body else None
                    finally:
                        if len(fr.locs) > mark:
                            I.pop_scope(fr, mark)
                    if r is BRK:
                        return None
                    if r is RET:
                        return RET
                    it = it.step(I, 1)
            finally:
                I.end_temps(fr, saved)
        return run

    def s_break(self, n):
        return lambda fr: BRK

    def s_cont(self, n):
        return lambda fr: CNT

    def s_nop(self, n):
        return lambda fr: None

    def s_try(self, n):
        body = self.cs(n["b"])
        hs = []
        for h in n["h"]:
            hs.append((h.get("t"), h["var"] if "var" in h else None, self.cs(h["b"]), h["l"]))
        I = self

        def run(fr):
            mark = len(fr.locs)
            try:
                return body(fr)
            except CppThrow as e:
                I.pop_scope(fr, mark)
                for t, var, b, line in hs:
                    if t is None or I.exc_matches(e.obj, t, getattr(e, "st", None)):
                        fr.line = line
                        byval = False
                        if var is not None:
                            if var["t"].rstrip().endswith("&"):
                                fr.l[var["id"]] = e.obj
                            else:
                                fr.l[var["id"]] = I.copy(e.obj) if I.is_obj(e.obj) else Cell(e.obj)
                        I.exc.append(e)
                        try:
                            return b(fr) if b else None
                        finally:
                            I.exc.pop()
                raise
        return run

    def exc_matches(self, o, t, st=None):
        t = strip_type(t)
        if o.__class__ is Obj:
            return self.p.is_a(o.cls, t)
        if o.__class__ is self.std.StdExc:
            return t in o.lin()
        if o.__class__ is self.std.SStr:
            return t.startswith("std::basic_string")
        if not st:
            raise Undecided("exception that is no object")
        return strip_type(st) == t

    def s_switch(self, n):
        c = self.full(n["c"])
        body = n["b"]
        items = body["b"] if body["k"] == "block" else [body]
        seq = []          # (labels, stmt)
        for x in items:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(int(x["v"]) if x["k"] == "case" else "default")
                x = x["b"]
            seq.append((labels, self.cs(x) if x is not None else None))
        var = self.c_var(n["var"]) if n.get("var") else None
        line = n["l"]
        I = self

        def run(fr):
            fr.line = line
            if var:
                var(fr)
            v = c(fr)
            if v.__class__ is str:
                v = ord(v)
            if v.__class__ is bool:
                v = int(v)
            if v.__class__ is Num:
                start = None
                for i, (ls, s) in enumerate(seq):
                    for l in ls:
                        if l != "default" and I.compare("==", v, Num(float(l))):
                            start = i
                            break
                    if start is not None:
                        break
            else:
                start = next((i for i, (ls, s) in enumerate(seq) if v in [l for l in ls if l != "default"]), None)
            if start is None:
                start = next((i for i, (ls, s) in enumerate(seq) if "default" in ls), None)
            if start is None:
                return None
            mark = len(fr.locs)
            try:
                for ls, s in seq[start:]:
                    r = s(fr) if s else None
                    if r is not None:
                        if r is BRK:
                            return None
                        return r
            finally:
                if len(fr.locs) > mark:
                    I.pop_scope(fr, mark)
        return run

    # ------------------------------------------------------------------ expressions
    def cx(self, n):
        if n is None:
            return lambda fr: None
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            k = n.get("c", n["k"])

            def bad(fr):
                raise Undecided("expression %s at %s" % (k, self.where()))
            return bad
        return m(n)

    def e_int(self, n):
        v = int(n["v"])
        return lambda fr: v

    def e_flt(self, n):
        v = Num(float(n["v"]))
        return lambda fr: v

    def e_bool(self, n):
        v = n["v"]
        return lambda fr: v

    def e_str(self, n):
        v = n["v"]
        return lambda fr: v

    def e_chr(self, n):
        v = chr(n["v"])
        return lambda fr: v

    def e_null(self, n):
        return lambda fr: None

    def e_this(self, n):
        return lambda fr: fr.this

    def e_ref(self, n):
        I = self
        if "lv" in n:
            i = n["lv"]

            def run(fr):
                try:
                    return fr.l[i]
                except KeyError:
                    # a constant or static variable used in a lambda without being captured
                    o = fr.outer
                    while o is not None:
                        if i in o.l:
                            return o.l[i]
                        o = o.outer
                    raise Undecided("unbound variable %s at %s" % (n["n"], I.where()))
            return run
        if "gv" in n:
            gu, q = n["gu"], n["gv"]

            def rung(fr):
                g = I.globals.get(gu)
                if g is None:
                    g = I.make_global(gu, q)
                return g
            return rung
        if "ec" in n:
            v = int(n["ec"])
            return lambda fr: v
        if "fn" in n:
            f = FnRef(n["fn"], n["q"], n["name"])
            return lambda fr: f
        raise Undecided("reference " + n["n"])

    def make_global(self, gu, q):
        d = self.p.glob.get(gu)
        if d is None:
            g = self.std.std_global(self, q)
            if g is None:
                raise Undecided("global %s" % q)
        else:
            fr = Fr({"l": d["l"], "file": d["file"], "q": q, "main": d.get("main"), "rt": "void"}, None)
            fr.temps = []
            self.stack.append(fr)
            try:
                v = self.cx(d["init"])(fr) if d.get("init") else self.std.default_zero(self, d["t"])
            finally:
                self.stack.pop()
            g = v if self.is_obj(v) else Cell(v)
        self.globals[gu] = g
        return g

    def e_mem(self, n):
        b = self.cx(n["b"])
        key = (n["cls"], n["f"])
        fname = n["f"]
        arrow = n["arrow"]
        I = self

        ElPtr = I.std.ElPtr

        def run(fr):
            o = b(fr)
            if o.__class__ is ElPtr:
                o = o.deref(I)
            if o.__class__ is Obj:
                if not o.alive:
                    I.ub("field %s of a destroyed object (%r) accessed" % (fname, o))
                v = o.f.get(key)
                if v is None:
                    c = I.p.cls.get(key[0])
                    if c is None:
                        v = o.f.get((I.resolve_class(key[0], fr.fn.get("main")), fname))
                    if v is None:
                        I.ub("field %s of %r read before it is initialised" % (fname, o))
                return v
            if o.__class__ is Cell and o.v.__class__ is Obj:
                o = o.v
                return o.f[key]
            if o is None:
                I.ub("field %s accessed through a null pointer" % fname)
            if o is UNINIT or o is DEAD:
                I.ub("field %s accessed through an uninitialised pointer" % fname)
            I.check_alive(o)
            return I.std.member(I, o, fname)
        return run

    def e_mref(self, n):
        raise Undecided("member function pointer")

    def e_dyn(self, n):
        e = self.cx(n["e"])
        cls, ptr = n["cls"], n["ptr"]
        I = self

        def run(fr):
            o = e(fr)
            if o is None:
                return None
            I.check_alive(o, "dynamic_cast")
            if o.__class__ is Obj and I.p.is_a(o.dyn, cls):
                return o
            if ptr:
                return None
            raise CppThrow(I.std.StdExc("std::bad_cast"))
        return run

    def e_l2r(self, n):
        e = self.cx(n["e"])
        I = self

        def run(fr):
            lv = e(fr)
            if lv.__class__ is Cell:
                v = lv.v
                if v is UNINIT:
                    I.ub("read of an uninitialised value" + I.name_of(n["e"]))
                if v is DEAD:
                    I.ub("read of storage after its lifetime ended" + I.name_of(n["e"]))
                return v
            if hasattr(lv, "v") and not I.is_obj(lv):
                return lv.v
            return lv
        return run

    def name_of(self, n):
        if n is None:
            return ""
        if n["k"] in ("ref",):
            return " (%s)" % n["n"]
        if n["k"] == "mem":
            return " (field %s)" % n["f"]
        return ""

    def e_ccast(self, n):
        return self.cx(n["e"])

    def e_decay(self, n):
        e = self.cx(n["e"])
        Vec, ElPtr = self.std.Vec, self.std.ElPtr

        def run(fr):
            v = e(fr)
            if v.__class__ is Cell and v.v.__class__ is Vec:
                v = v.v
            return ElPtr(v, 0) if v.__class__ is Vec else v
        return run

    def e_upcast(self, n):
        return self.cx(n["e"])

    def e_cast(self, n):
        e = self.cx(n["e"])
        ck, t = n["ck"], n["t"]
        I = self
        if ck == "IntegralCast":
            def run(fr):
                v = e(fr)
                c = v.__class__
                if c is UBool:
                    v = I.truth(v)
                    c = bool
                if c is str:
                    v = ord(v)
                    if v >= 0xE000:          # a character of an opaque number
                        return chr(v) if t == "char" else v
                    if 128 <= v < 256:
                        v -= 256
                    c = int
                if c is int and v >= 0xE000 and t in ("char", "unsigned char"):
                    return chr(v) if t == "char" else v
                if c is Num:
                    return v
                if v is UNINIT:
                    I.ub("read of an uninitialised value")
                if t == "char":
                    return chr(v & 255)
                if c is bool:
                    v = int(v)
                b = INT_BITS.get(t)
                if b:
                    bits, signed = b
                    v &= (1 << bits) - 1
                    if signed and v >> (bits - 1):
                        v -= 1 << bits
                return v
            return run
        if ck in ("IntegralToBoolean",):
            def runb(fr):
                v = e(fr)
                if v.__class__ is int:
                    return v != 0
                return I.truth(v)
            return runb
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            def runp(fr):
                v = e(fr)
                if v is UNINIT or v is DEAD:
                    I.ub("test of an uninitialised pointer")
                return v is not None
            return runp
        if ck == "FloatingToBoolean":
            return lambda fr: I.compare("!=", e(fr), Num(0.0))
        if ck == "IntegralToFloating":
            def runf(fr):
                v = e(fr)
                if v.__class__ is str:
                    v = ord(v)
                return I.num(v)
            return runf
        if ck == "FloatingCast":
            if t == "float":
                import struct

                def runff(fr):
                    v = I.num(e(fr))
                    if v.is_point() and abs(v.lo) != N.INF:
                        return Num(struct.unpack("f", struct.pack("f", v.lo))[0])
                    return v
                return runff
            return e
        if ck == "FloatingToIntegral":
            def runfi(fr):
                v = I.num(e(fr))
                if v.only_nan() or (v.is_point() and abs(v.lo) == N.INF):
                    I.ub("conversion of %r to %s" % (v, t))
                if v.is_point():
                    return I.wrap(math.trunc(v.lo), t)
                lo = math.trunc(v.lo) if abs(v.lo) != N.INF else v.lo
                hi = math.trunc(v.hi) if abs(v.hi) != N.INF else v.hi
                if lo == hi:
                    return lo
                return Num(lo, hi, False, N.cons("trunc", v.tag), True)
            return runfi
        return e

    def e_un(self, n):
        op = n["op"]
        t = n["t"]
        I = self
        e = self.cx(n["e"])
        if op == "!":
            def run(fr):
                v = e(fr)
                if v is True:
                    return False
                if v is False:
                    return True
                return not I.truth(v)
            return run
        if op == "-":
            def runm(fr):
                v = e(fr)
                if v.__class__ is Num:
                    v = I.R(v)
                    r = N.neg(v)
                    r.isint = v.isint
                    return r
                if v.__class__ is str:
                    v = ord(v)
                return I.wrap(-v, t)
            return runm
        if op == "+":
            return e
        if op == "~":
            return lambda fr: I.wrap(~e(fr), t)
        if op == "*":
            def rund(fr):
                p = e(fr)
                if p.__class__ is I.std.ElPtr:
                    return p.deref(I)
                return I.check_alive(p, "dereference")
            return rund
        if op == "&":
            return e
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            post = n["post"]

            def runi(fr):
                lv = e(fr)
                v = lv.v
                if v.__class__ is int:
                    nv = I.wrap(v + d, t)
                else:
                    if v is UNINIT or v is DEAD:
                        I.ub("increment of an uninitialised value")
                    nv = I.arith("+" if d > 0 else "-", v, 1, t)
                lv.v = nv
                return v if post else lv
            return runi
        if op == "__extension__":
            return e

        def bad(fr):
            raise Undecided("unary " + op)
        return bad

    def e_bin(self, n):
        op, t = n["op"], n["t"]
        a, b = self.cx(n["a"]), self.cx(n["b"])
        I = self
        if op == "&&":
            def run_and(fr):
                v = a(fr)
                if v is False or (v is not True and not I.truth(v)):
                    return False
                v = b(fr)
                return v if v is True or v is False else I.truth(v)
            return run_and
        if op == "||":
            def run_or(fr):
                v = a(fr)
                if v is True or (v is not False and I.truth(v)):
                    return True
                v = b(fr)
                return v if v is True or v is False else I.truth(v)
            return run_or
        if op == ",":
            def run_c(fr):
                a(fr)
                return b(fr)
            return run_c
        ot = t
        return lambda fr: I.arith(op, a(fr), b(fr), ot)

    def e_asg(self, n):
        a, b = self.cx(n["a"]), self.cx(n["b"])
        I = self

        def run(fr):
            v = b(fr)
            lv = a(fr)
            if lv.__class__ is Cell:
                if lv.v is DEAD:
                    I.ub("write to storage after its lifetime ended")
                lv.v = v
            elif lv.__class__ is Obj:
                I.assign_obj(lv, v)
            else:
                lv.v = v
            return lv
        return run

    def e_casg(self, n):
        a, b = self.cx(n["a"]), self.cx(n["b"])
        op, t, ct = n["op"], n["t"], n["ct"]
        I = self

        def run(fr):
            y = b(fr)
            lv = a(fr)
            x = lv.v
            if x is UNINIT or x is DEAD:
                I.ub("update of an uninitialised value" + I.name_of(n["a"]))
            v = I.arith(op, x, y, ct)
            if ct != t and not is_float_t(t) and v.__class__ is Num:
                if v.is_point():
                    v = math.trunc(v.lo)
                else:
                    v = Num(math.trunc(v.lo), math.trunc(v.hi), False, None, True)
            elif v.__class__ is int:
                b_ = INT_BITS.get(t)
                if t == "bool":
                    v = bool(v)
                elif b_:
                    bits, signed = b_
                    v &= (1 << bits) - 1
                    if signed and v >> (bits - 1):
                        v -= 1 << bits
            lv.v = v
            return lv
        return run

    def e_cond(self, n):
        c, a, b = self.cx(n["c"]), self.cx(n["a"]), self.cx(n["b"])
        I = self

        def run(fr):
            v = c(fr)
            if v is not True and v is not False:
                v = I.truth(v)
            return a(fr) if v else b(fr)
        return run

    def e_idx(self, n):
        a, i = self.cx(n["a"]), self.cx(n["i"])
        I = self

        def run(fr):
            return I.std.index(I, a(fr), i(fr))
        return run

    def args_c(self, n):
        return [self.cx(x) for x in n["args"]]

    def e_op(self, n):
        args = self.args_c(n)
        u = n.get("fn")
        I = self
        op = n["op"]
        if u is not None and u in self.p.fn and not (n.get("mem") and self.p.fn[u].get("kind") is None and self.p.fn[u].get("body") is None and not (self.p.fn[u].get("copyasg") or self.p.fn[u].get("moveasg"))):
            virt = bool(n.get("virt"))
            if n.get("mem"):
                def runm(fr):
                    o = args[0](fr)
                    a = [x(fr) for x in args[1:]]
                    return I.invoke(u, o, a, virt)
                return runm
            return lambda fr: I.call_uid(u, None, [x(fr) for x in args])
        if n.get("q", "").startswith("fuzzylite::") and op != "=" and n.get("mem"):
            virt = bool(n.get("virt"))

            def runv(fr):
                o = args[0](fr)
                return I.invoke(u, o, [x(fr) for x in args[1:]], virt)
            return runv
        std = self.std
        f = std.compile_op(self, n, op, args)
        return f

    def e_mcall(self, n):
        o = self.cx(n["o"])
        args = self.args_c(n)
        u, q, name = n["fn"], n["q"], n["name"]
        virt, static = n["virt"], n["static"]
        I = self
        std = self.std
        if static:
            if u in self.p.fn:
                return lambda fr: I.call_uid(u, None, [x(fr) for x in args])
        arrow = n["arrow"]

        def run(fr):
            ob = o(fr)
            if arrow and ob.__class__ is std.ElPtr:
                ob = ob.deref(I)
            if ob.__class__ is Obj:
                a = [x(fr) for x in args]
                if not ob.alive:
                    I.ub("call of %s on a destroyed object (%r)" % (name, ob))
                if q.startswith("std::exception"):
                    return I.invoke(u, ob, a, True)
                if name.startswith("~"):
                    I.destroy(ob)
                    return None
                return I.invoke(u, ob, a, virt)
            if ob is None:
                I.ub("%s called on a null pointer" % q)
            if ob is UNINIT or ob is DEAD:
                I.ub("%s called on an uninitialised pointer" % q)
            return std.mcall(I, ob, name, args, fr, n)
        return run

    def e_call(self, n):
        args = self.args_c(n)
        u, q = n["fn"], n["q"]
        I = self
        if u in self.p.fn:
            def run(fr):
                return I.call_uid(u, None, [x(fr) for x in args])
            return run
        std = self.std

        def runs(fr):
            h = I.hooks.get(q)
            a = [x(fr) for x in args]
            if h is not None:
                return h(I, None, a, None)
            if q == "__builtin_va_start":
                a[0].v = std.VaList(list(fr.va or []))
                return None
            return std.call_free(I, q, a, n)
        return runs

    def call_member(self, f, o, args):
        """Call of the member function f points to on the object or pointer o."""
        if o.__class__ is Cell:
            o = self.read(o)
        if o.__class__ is self.std.UPtr:
            o = o.p
        if o is None:
            self.ub("%s called on a null pointer" % f.q)
        if o.__class__ is self.std.ElPtr:
            o = o.deref(self)
        if f.__class__ is not FnRef or o.__class__ is not Obj:
            raise Undecided("call of %r on %r" % (f, o))
        self.check_alive(o)
        if f.u in self.p.fn:
            pt = self.p.fn[f.u]["params"]
        else:
            c = self.p.cls.get(f.q.rsplit("::", 1)[0])
            pt = [m["pt"] for m in (c.methods if c else ()) if m["u"] == f.u]
            if not pt:
                raise Undecided("call of %r on %r" % (f, o))
            pt = pt[0]
        return self.invoke(f.u, o, self.by_value(args, pt), True)

    def e_pmcall(self, n):
        o, p = self.cx(n["o"]), self.cx(n["p"])
        args = self.args_c(n)
        I = self

        def run(fr):
            ob, f = o(fr), p(fr)
            if f.__class__ is Cell:
                f = I.read(f)
            return I.call_member(f, ob, [x(fr) for x in args])
        return run

    def e_pcall(self, n):
        c = self.cx(n["c"])
        args = self.args_c(n)
        I = self
        return lambda fr: I.call_value(c(fr), [x(fr) for x in args])

    def e_ctor(self, n):
        args = self.args_c(n)
        u, cls = n["fn"], n["cls"]
        I = self
        std = self.std
        an = n["args"]
        if n["el"] and len(an) == 1 and an[0]["k"] in ("mte", "bte", "call", "mcall", "op", "ctor", "cond", "pcall"):
            a0 = args[0]

            def elide(fr):
                v = a0(fr)
                if fr.temps:
                    for i, t in enumerate(fr.temps):
                        if t is v:
                            del fr.temps[i]
                            return v
                if an[0]["k"] in ("cond",):
                    return I.copy(v)
                return v
            return elide
        if cls in self.p.cls or u in self.p.fn:
            rcls = cls

            def run(fr):
                a = [x(fr) for x in args]
                q = rcls
                if q not in I.p.cls:
                    q = I.resolve_class(q, fr.fn.get("main"))
                o = Obj(q)
                I.run_ctor(u, o, q, a)
                return o
            return run
        main = self.main

        def runs(fr):
            if cls + "@" + str(fr.fn.get("main")) in I.p.cls:
                q = cls + "@" + fr.fn["main"]
                o = Obj(q)
                I.run_ctor(u, o, q, [x(fr) for x in args])
                return o
            return std.construct(I, n["t"], args, fr, n)
        return runs

    def e_new(self, n):
        init = self.cx(n["init"]) if n["init"] is not None else None
        t = n["t"]
        I = self
        line = n["l"]
        if "arr" in n:
            size = self.cx(n["arr"])

            def runa(fr):
                k = size(fr)
                if k.__class__ is not int:
                    raise Undecided("array of unknown size")
                v = I.std.Vec([I.std.as_slot(I, I.std.default_uninit(I, t)) for _ in range(k)], t)
                I.on_heap(v, "%s:%d" % (fr.fn["file"], line))
                return I.std.ElPtr(v, 0)
            return runa

        def run(fr):
            v = init(fr) if init is not None else I.std.default_uninit(I, t)
            if not I.is_obj(v):
                v = v if v.__class__ is Cell else Cell(v)
            elif fr.temps:
                for i, x in enumerate(fr.temps):
                    if x is v:
                        del fr.temps[i]
                        break
            I.on_heap(v, "%s:%d (%s)" % (fr.fn["file"], line, fr.fn["q"]))
            return v
        return run

    def e_delete(self, n):
        e = self.cx(n["e"])
        t = n["t"]
        I = self

        def run(fr):
            p = e(fr)
            if p.__class__ is I.std.ElPtr:
                p = p.c
            I.delete(p, strip_type(t))
        return run

    def e_throw(self, n):
        I = self
        if n["e"] is None:
            def rethrow(fr):
                if not I.exc:
                    I.ub("rethrow without an active exception")
                raise I.exc[-1]
            return rethrow
        e = self.cx(n["e"])

        def run(fr):
            v = e(fr)
            if fr.temps:
                for i, x in enumerate(fr.temps):
                    if x is v:
                        del fr.temps[i]
                        break
            x = CppThrow(v, I.where())
            x.st = st
            raise x
        st = n["e"].get("t")
        return run

    def e_mte(self, n):
        e = self.cx(n["e"])
        I = self
        ext = n.get("ext")

        def run(fr):
            v = e(fr)
            if v.__class__ is Cell or I.is_obj(v):
                return v
            return Cell(v)
        return run

    def e_bte(self, n):
        e = self.cx(n["e"])
        I = self

        def run(fr):
            v = e(fr)
            if fr.temps is not None and I.is_obj(v):
                for x in fr.temps:
                    if x is v:
                        return v
                fr.temps.append(v)
            return v
        return run

    def e_defarg(self, n):
        e = self.cx(n["e"])
        return e

    def e_zero(self, n):
        t = n["t"]
        I = self
        return lambda fr: I.std.default_zero(I, t)

    def e_ilist(self, n):
        args = self.args_c(n)
        t = n["t"]
        I = self
        cls = n.get("cls")

        def run(fr):
            vs = [x(fr) for x in args]
            if cls and cls in I.p.cls:
                o = Obj(cls)
                I.trivial_ctor(o, cls, [])
                for f, v in zip(I.p.cls[cls].fields, vs):
                    o.f[(cls, f["n"])] = v if (I.is_obj(v) and not is_ptr_t(f["t"])) or (f["t"].rstrip().endswith("&") and hasattr(v, "v")) else Cell(I.read(v) if v.__class__ is Cell else v)
                return o
            if I.std.is_array(t):
                et, size = I.std.array_type(t)
                if et.rstrip().removesuffix("const").rstrip().endswith("*"):
                    vs = [Cell(I.read(v) if v.__class__ is Cell else v) for v in vs]
                vs = [I.std.as_slot(I, v) for v in vs]
                while len(vs) < size:
                    vs.append(I.std.as_slot(I, I.std.default_zero(I, et)))
                return I.std.Vec(vs, et)
            if len(vs) == 1:
                return vs[0]
            if not vs:
                return I.std.default_zero(I, t)
            raise Undecided("initialiser list for " + t)
        return run

    def e_sil(self, n):
        return self.cx(n["e"])

    def e_lambda(self, n):
        inits = [self.cx(x) for x in n["inits"]]
        body = self.cs(n["body"])
        I = self
        caps = n["caps"]

        def run(fr):
            env = {}
            this = None
            for c, e in zip(caps, inits):
                if c.get("this"):
                    this = fr.this
                elif c.get("ref"):
                    if c["lv"] in fr.l:          # otherwise it is the variable being initialised: looked up when called
                        env[c["lv"]] = fr.l[c["lv"]]
                else:
                    v = fr.l[c["lv"]]
                    env[c["lv"]] = I.copy(v) if I.is_obj(v) else Cell(I.read(v))
            return Lam(n, env, this, (body, fr, fr.fn))
        return run

    def e_typeid(self, n):
        I = self
        if "e" not in n:
            q = strip_type(n["t"])
            return lambda fr: I.std.TypeInfo(I.resolve_class(q, fr.fn.get("main")))
        e = self.cx(n["e"])

        def run(fr):
            o = e(fr)
            if o is None:
                raise CppThrow(I.std.StdExc("std::bad_typeid"))
            if o.__class__ is not Obj:
                raise Undecided("typeid of %r" % (o,))
            I.check_alive(o)
            return I.std.TypeInfo(o.dyn)
        return run

    def e_vaarg(self, n):
        e = self.cx(n["e"])
        I = self

        def run(fr):
            v = e(fr)
            if v.__class__ is Cell:
                v = v.v
            if not v.items:
                I.ub("va_arg beyond the last argument")
            return v.items.pop(0)
        return run
