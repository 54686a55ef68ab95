"""Models of the part of the C++ standard library that fuzzylite (and likely edits of it) use."""
import math
import re
from . import num as N
from .num import Num
from .interp import (Cell, Obj, Lam, FnRef, UBool, Undecided, UB, CppThrow, UNINIT, DEAD, NPOS, strip_type, template_args, is_float_t, INT_BITS, fnptr)

ATOM0, ATOM1 = 0xE000, 0xEFFF
# symbolic characters: an arbitrary letter or digit, white space, or other printable character (none of `_` and `.`)
SYM_ALNUM, SYM_SPACE, SYM_OTHER = (0xF000, 0xF0FF), (0xF100, 0xF1FF), (0xF200, 0xF2FF)


class StdExc:
    """An exception object of the standard library."""
    H = {"std::out_of_range": ["std::logic_error", "std::exception"], "std::logic_error": ["std::exception"],
         "std::invalid_argument": ["std::logic_error", "std::exception"], "std::length_error": ["std::logic_error", "std::exception"],
         "std::runtime_error": ["std::exception"], "std::bad_cast": ["std::exception"], "std::bad_alloc": ["std::exception"],
         "std::bad_function_call": ["std::exception"], "std::exception": []}

    def __init__(self, q, msg=""):
        self.q, self.msg = q, msg
        self.alive = True

    def lin(self):
        return [self.q] + self.H.get(self.q, ["std::exception"])

    def copy_std(self, I, move=False):
        return StdExc(self.q, self.msg)

    def destroy_std(self, I):
        pass

    def m_what(self, I, a):
        return self.msg or self.q

    def __repr__(self):
        return self.q


def rv(I, x):
    """Value of an argument that may be an lvalue of scalar type."""
    if x.__class__ is Cell:
        return I.read(x)
    if x.__class__ is CharRef:
        return x.v
    return x


def text(I, x):
    x = rv(I, x)
    if x.__class__ is SStr:
        if not x.alive:
            I.ub("use of a destroyed string")
        return x.v
    if x.__class__ is str:
        return x
    if x is None:
        I.ub("null pointer used as text")
    raise Undecided("text expected, got %r" % (x,))


def piece(I, a):
    """Text given to a string operation in one of the ways of std::string: a text, a part of one, n times a character, a range, a list."""
    x = rv(I, a[0])
    if x.__class__ in (It, RIt, ElPtr):
        xs = rng_text(I, x, rv(I, a[1]))
    elif x.__class__ is int and len(a) == 2:
        xs = [rv(I, a[1])] * x
    elif x.__class__ is Vec and len(a) == 1:
        xs = [rv(I, c) for c in x.x]
    else:
        s = text(I, x)
        if len(a) == 1:
            return s
        p = rv(I, a[1])
        n = rv(I, a[2]) if len(a) > 2 else NPOS
        if p.__class__ is not int or n.__class__ is not int or len(a) > 3:
            raise Undecided("part of a text")
        if x.__class__ is str:
            if len(a) == 3:
                s = s[p:] if n >= NPOS else s[p:p + n]      # (const char*) -> std::string, pos, n
                return s
            return s[:p]
        if p > len(s):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        return s[p:] if n >= NPOS else s[p:p + n]
    if any(c.__class__ is not str for c in xs):
        raise Undecided("text of characters that are not known")
    return "".join(xs)


def as_slot(I, v):
    return v if I.is_obj(v) or v.__class__ is Cell else Cell(v)


def is_atom(c):
    return ATOM0 <= ord(c) <= ATOM1


class SStr:
    __slots__ = ("v", "alive")

    def __init__(self, v=""):
        self.v = v
        self.alive = True

    def __repr__(self):
        return "S%r" % self.v

    def copy_std(self, I, move=False):
        r = SStr(self.v)
        return r

    def assign_std(self, I, src, move=False):
        s = rv(I, src)
        self.v = s.v if s.__class__ is SStr else (s if s.__class__ is str else text(I, s))

    def destroy_std(self, I):
        pass

    def m_size(self, I, a):
        return len(self.v)
    m_length = m_size

    def m_empty(self, I, a):
        return not self.v

    def m_c_str(self, I, a):
        return self.v
    m_data = m_c_str

    def m_clear(self, I, a):
        self.v = ""

    def m_reserve(self, I, a):
        pass
    m_shrink_to_fit = m_reserve

    def m_at(self, I, a):
        i = rv(I, a[0])
        if not 0 <= i < len(self.v):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        return CharRef(self, i)

    def m_front(self, I, a):
        if not self.v:
            I.ub("front() of an empty string")
        return CharRef(self, 0)

    def m_back(self, I, a):
        if not self.v:
            I.ub("back() of an empty string")
        return CharRef(self, len(self.v) - 1)

    def m_push_back(self, I, a):
        self.v += rv(I, a[0])

    def m_pop_back(self, I, a):
        if not self.v:
            I.ub("pop_back() of an empty string")
        self.v = self.v[:-1]

    def _pat(self, I, x):
        x = rv(I, x)
        return x.v if x.__class__ is SStr else x

    def _seek(self, I, a, whole):
        """Pattern and position of a search."""
        pat = self._pat(I, a[0])
        if pat.__class__ is not str:
            raise Undecided("search for %r" % (pat,))
        p = rv(I, a[1]) if len(a) > 1 else whole
        if len(a) > 2:
            pat = pat[:rv(I, a[2])]
        if p.__class__ is not int:
            raise Undecided("search from an unknown position")
        return pat, p

    def m_find(self, I, a):
        pat, p = self._seek(I, a, 0)
        if p > len(self.v):
            return NPOS
        r = self.v.find(pat, p)
        return NPOS if r < 0 else r

    def m_rfind(self, I, a):
        pat, p = self._seek(I, a, NPOS)
        r = self.v.rfind(pat) if p >= len(self.v) else self.v.rfind(pat, 0, p + len(pat))
        return NPOS if r < 0 else r

    def m_find_first_of(self, I, a):
        s, p = self._seek(I, a, 0)
        for i in range(min(p, len(self.v)), len(self.v)):
            if self.v[i] in s:
                return i
        return NPOS

    def m_find_first_not_of(self, I, a):
        s, p = self._seek(I, a, 0)
        for i in range(min(p, len(self.v)), len(self.v)):
            if self.v[i] not in s:
                return i
        return NPOS

    def m_find_last_of(self, I, a):
        s, p = self._seek(I, a, NPOS)
        for i in range(min(p, len(self.v) - 1), -1, -1):
            if self.v[i] in s:
                return i
        return NPOS

    def m_find_last_not_of(self, I, a):
        s, p = self._seek(I, a, NPOS)
        for i in range(min(p, len(self.v) - 1), -1, -1):
            if self.v[i] not in s:
                return i
        return NPOS

    def m_substr(self, I, a):
        p = rv(I, a[0]) if a else 0
        n = rv(I, a[1]) if len(a) > 1 else NPOS
        if p > len(self.v):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        return SStr(self.v[p:] if n >= NPOS else self.v[p:p + n])

    def m_append(self, I, a):
        self.v += piece(I, a)
        return self

    def m_assign(self, I, a):
        self.v = piece(I, a)
        return self

    def m_compare(self, I, a):
        s = self.v
        if len(a) > 1:
            p, n = rv(I, a[0]), rv(I, a[1])
            if p > len(s):
                raise CppThrow(StdExc("std::out_of_range"), I.where())
            s, o = s[p:p + n], piece(I, a[2:])
        else:
            o = text(I, a[0])
        return -1 if s < o else 1 if s > o else 0

    def m_erase(self, I, a):
        if a and a[0].__class__ is It:
            i = a[0].i
            j = a[1].i if len(a) > 1 else i + 1
            if not 0 <= i <= j <= len(self.v):
                I.ub("erasure outside a string")
            self.v = self.v[:i] + self.v[j:]
            return It(self, i)
        p = rv(I, a[0]) if a else 0
        n = rv(I, a[1]) if len(a) > 1 else NPOS
        if p > len(self.v):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        self.v = self.v[:p] + ("" if n >= NPOS else self.v[p + n:])
        return self

    def m_insert(self, I, a):
        if a[0].__class__ is It:
            i = a[0].i
            c = rv(I, a[1])
            self.v = self.v[:i] + (c if len(a) == 2 and c.__class__ is str else piece(I, a[1:])) + self.v[i:]
            return It(self, i)
        p = rv(I, a[0])
        if p > len(self.v):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        self.v = self.v[:p] + piece(I, a[1:]) + self.v[p:]
        return self

    def m_replace(self, I, a):
        if a[0].__class__ is It:
            i, j = a[0].i, a[1].i
            self.v = self.v[:i] + piece(I, a[2:]) + self.v[j:]
            return self
        p, n = rv(I, a[0]), rv(I, a[1])
        if p > len(self.v):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        self.v = self.v[:p] + piece(I, a[2:]) + ("" if n >= NPOS else self.v[p + n:])
        return self

    def m_resize(self, I, a):
        n = rv(I, a[0])
        c = rv(I, a[1]) if len(a) > 1 else "\0"
        self.v = self.v[:n] + c * max(0, n - len(self.v))

    def m_swap(self, I, a):
        self.v, a[0].v = a[0].v, self.v

    def m_begin(self, I, a):
        return It(self, 0)
    m_cbegin = m_begin

    def m_end(self, I, a):
        return It(self, len(self.v))
    m_cend = m_end

    def m_rbegin(self, I, a):
        return RIt(It(self, len(self.v)))
    m_crbegin = m_rbegin

    def m_rend(self, I, a):
        return RIt(It(self, 0))
    m_crend = m_rend

    # element access for iterators
    def n(self):
        return len(self.v)

    def slot(self, i):
        return CharRef(self, i)


class CharRef:
    """Reference to one character of a string."""
    __slots__ = ("s", "i")

    def __init__(self, s, i):
        self.s, self.i = s, i

    @property
    def v(self):
        if self.i >= len(self.s.v):
            return "\0"
        return self.s.v[self.i]

    @v.setter
    def v(self, c):
        self.s.v = self.s.v[:self.i] + c + self.s.v[self.i + 1:]

    def assign_std(self, I, src, move=False):
        if not 0 <= self.i < len(self.s.v):
            I.ub("a character is written outside of its text")
        src = rv(I, src)
        self.v = src.v if src.__class__ in (Cell, CharRef) else src if src.__class__ is str else chr(src)


class ElPtr:
    """Pointer into an array."""
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def key(self):
        return (id(self.c), self.i)

    def same(self, o):
        return o.__class__ is ElPtr and self.key() == o.key()

    def step(self, I, k):
        return ElPtr(self.c, self.i + k)

    def diff(self, o):
        return self.i - o.i

    def deref(self, I):
        if not 0 <= self.i < len(self.c.x):
            I.ub("pointer outside its array dereferenced")
        return self.c.x[self.i]

    def arith(self, I, op, b):
        if b.__class__ is int:
            return ElPtr(self.c, self.i + b if op == "+" else self.i - b)
        if op == "-":
            return self.i - b.i
        return I.arith(op, self.i, b.i, "bool")


class It:
    """Random-access iterator into a string or sequence."""
    __slots__ = ("c", "i", "alive")

    def __init__(self, c, i):
        self.c, self.i = c, i
        self.alive = True

    def copy_std(self, I, move=False):
        return It(self.c, self.i)

    def assign_std(self, I, o, move=False):
        self.c, self.i = o.c, o.i

    def destroy_std(self, I):
        pass

    def deref(self, I):
        if not self.c.alive:
            I.ub("iterator into a destroyed container")
        if not 0 <= self.i < self.c.n():
            I.ub("iterator dereferenced outside its container")
        return self.c.slot(self.i)

    def same(self, o):
        return self.c is o.c and self.i == o.i

    def step(self, I, k):
        return It(self.c, self.i + k)

    def set(self, o):
        self.c, self.i = o.c, o.i

    def diff(self, o):
        return self.i - o.i

    m_base = None


class RIt:
    """std::reverse_iterator over It."""
    __slots__ = ("b", "alive")

    def __init__(self, b):
        self.b = b
        self.alive = True

    def copy_std(self, I, move=False):
        return RIt(self.b)

    def assign_std(self, I, o, move=False):
        self.b = o.b

    def destroy_std(self, I):
        pass

    def deref(self, I):
        return self.b.step(I, -1).deref(I)

    def same(self, o):
        return self.b.same(o.b)

    def step(self, I, k):
        return RIt(self.b.step(I, -k))

    def set(self, o):
        self.b = o.b

    def diff(self, o):
        return o.b.i - self.b.i

    def m_base(self, I, a):
        return self.b


class MIt:
    """Iterator into a map or set; key None is end()."""
    __slots__ = ("c", "k", "alive")

    def __init__(self, c, k):
        self.c, self.k = c, k
        self.alive = True

    def copy_std(self, I, move=False):
        return MIt(self.c, self.k)

    def assign_std(self, I, o, move=False):
        self.c, self.k = o.c, o.k

    def destroy_std(self, I):
        pass

    def deref(self, I):
        if self.k is None:
            I.ub("end iterator of a map dereferenced")
        if self.k not in self.c.d:
            I.ub("iterator to an erased map element dereferenced")
        return self.c.d[self.k]

    def same(self, o):
        return self.c is o.c and self.k == o.k

    def step(self, I, k):
        ks = self.c.keys()
        if self.k is None:
            if k < 0 and ks:
                return MIt(self.c, ks[k])
            I.ub("end iterator of a map advanced")
        if self.k not in ks:
            I.ub("iterator to an erased map element advanced")
        i = ks.index(self.k) + k
        return MIt(self.c, ks[i] if 0 <= i < len(ks) else None)

    def set(self, o):
        self.c, self.k = o.c, o.k

    def diff(self, o):
        ks = self.c.keys()
        f = lambda z: len(ks) if z.k is None else ks.index(z.k)
        return f(self) - f(o)


def rng(I, a, b):
    out = []
    x, b = rv(I, a), rv(I, b)
    if x.__class__ is str or not hasattr(x, "same"):
        raise Undecided("range from %r" % (x,))
    n = 0
    while not x.same(b):
        out.append(x.deref(I))
        x = x.step(I, 1)
        n += 1
        if n > 100000:
            raise Undecided("iterator range does not end")
    return out


def rng_text(I, a, b):
    return [rv(I, s) for s in rng(I, a, b)]


class Vec:
    __slots__ = ("x", "et", "alive")

    def __init__(self, x=None, et=""):
        self.x = x if x is not None else []
        self.et = et
        self.alive = True

    def __repr__(self):
        return "Vec(%d)" % len(self.x)

    def copy_std(self, I, move=False):
        if move:
            r = Vec(self.x, self.et)
            self.x = []
            return r
        return Vec([I.copy(s) for s in self.x], self.et)

    def assign_std(self, I, src, move=False):
        src = rv(I, src)
        if src is self:
            return
        old = self.x
        if move:
            self.x = src.x
            src.x = []
        else:
            self.x = [I.copy(s) for s in src.x]
        for s in old:
            I.destroy(s)

    def destroy_std(self, I):
        for s in self.x:
            I.destroy(s)

    def n(self):
        return len(self.x)

    def slot(self, i):
        return self.x[i]

    def mkslot(self, I, v, move=False):
        if self.et.rstrip().endswith("*"):
            return Cell(I.read(v) if v.__class__ is Cell else v)
        v = rv(I, v) if not I.is_obj(v) else v
        if I.is_obj(v):
            return I.copy(v, move=move)
        if v.__class__ is str and strip_type(self.et).startswith("std::basic_string"):
            return SStr(v)
        if is_float_t(strip_type(self.et)) and v.__class__ in (int, bool):
            v = Num(float(v))
        return Cell(v)

    def m_size(self, I, a):
        return len(self.x)

    def m_empty(self, I, a):
        return not self.x

    def m_capacity(self, I, a):
        return len(self.x)

    def m_reserve(self, I, a):
        pass

    def m_shrink_to_fit(self, I, a):
        pass

    def idx(self, I, v):
        v = rv(I, v)
        if v.__class__ is Num:
            v = I.R(v)
            if v.is_point():
                return int(v.lo)
            for k in range(len(self.x)):
                if I.compare("==", v, Num(float(k))):
                    return k
            return len(self.x)
        return v

    def m_at(self, I, a):
        i = self.idx(I, a[0])
        if not 0 <= i < len(self.x):
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        return self.x[i]

    def get(self, I, i):
        i = self.idx(I, i)
        if not 0 <= i < len(self.x):
            I.ub("index %d outside a vector of size %d" % (i, len(self.x)))
        return self.x[i]

    def m_front(self, I, a):
        if not self.x:
            I.ub("front() of an empty container")
        return self.x[0]

    def m_back(self, I, a):
        if not self.x:
            I.ub("back() of an empty container")
        return self.x[-1]

    def m_top(self, I, a):
        if not self.x:
            I.ub("top() of an empty stack")
        return self.x[-1]

    def m_data(self, I, a):
        return ElPtr(self, 0)

    def m_push_back(self, I, a):
        self.x.append(self.mkslot(I, a[0]))

    def m_push_front(self, I, a):
        self.x.insert(0, self.mkslot(I, a[0]))

    def m_emplace_back(self, I, a):
        t = strip_type(self.et)
        if t in I.p.cls:
            if len(a) == 1 and a[0].__class__ is Obj and I.p.is_a(a[0].cls, t):
                self.x.append(self.mkslot(I, a[0]))
            else:
                cands = [m for m in I.p.cls[t].methods if m["kind"] == "ctor" and sum(1 for p in m["pt"] if not p["d"]) <= len(a) <= len(m["pt"])]
                av = [rv(I, x) for x in a]
                m = I.pick(cands, av, t)
                o = Obj(t)
                I.run_ctor(m["u"], o, t, [x if p["t"].endswith("&") else v for x, v, p in zip(a, av, m["pt"])])
                self.x.append(o)
        elif t.startswith("std::pair") and len(a) == 2:
            ta = template_args(t)
            self.x.append(Pair(conv_slot(I, a[0], ta[0]), conv_slot(I, a[1], ta[1])))
        elif not a:
            self.x.append(as_slot(I, default_zero(I, t)))
        else:
            self.x.append(self.mkslot(I, a[0]))
        return self.x[-1]

    def m_pop_back(self, I, a):
        if not self.x:
            I.ub("pop_back() of an empty container")
        I.destroy(self.x.pop())

    def m_pop_front(self, I, a):
        if not self.x:
            I.ub("pop_front() of an empty container")
        I.destroy(self.x.pop(0))

    def m_clear(self, I, a):
        old, self.x = self.x, []
        for s in old:
            I.destroy(s)

    def m_resize(self, I, a):
        n = self.idx(I, a[0])
        while len(self.x) > n:
            I.destroy(self.x.pop())
        while len(self.x) < n:
            self.x.append(self.mkslot(I, a[1]) if len(a) > 1 else as_slot(I, default_zero(I, self.et)))

    def m_assign(self, I, a):
        x = rv(I, a[0])
        if x.__class__ in ITS:
            new = [self.mkslot(I, s) for s in rng(I, x, a[1])]
        elif len(a) == 1 and x.__class__ is Vec:
            new = [self.mkslot(I, s) for s in x.x]
        else:
            new = [self.mkslot(I, a[1]) for _ in range(self.idx(I, a[0]))]
        self.m_clear(I, [])
        self.x = new

    def m_swap(self, I, a):
        self.x, a[0].x = a[0].x, self.x

    def m_begin(self, I, a):
        return It(self, 0)
    m_cbegin = m_begin

    def m_end(self, I, a):
        return It(self, len(self.x))
    m_cend = m_end

    def m_rbegin(self, I, a):
        return RIt(It(self, len(self.x)))
    m_crbegin = m_rbegin

    def m_rend(self, I, a):
        return RIt(It(self, 0))
    m_crend = m_rend

    def m_insert(self, I, a):
        it = a[0]
        if not 0 <= it.i <= len(self.x):
            I.ub("insertion outside the container")
        if len(a) == 3 and rv(I, a[1]).__class__ in ITS:
            new = [self.mkslot(I, s) for s in rng(I, a[1], a[2])]
        elif len(a) == 3:
            new = [self.mkslot(I, a[2]) for _ in range(self.idx(I, a[1]))]
        elif a[1].__class__ is Vec and strip_type(a[1].et) == strip_type(self.et):
            new = [self.mkslot(I, s) for s in a[1].x]
        else:
            new = [self.mkslot(I, a[1])]
        self.x[it.i:it.i] = new
        return It(self, it.i)

    def m_emplace(self, I, a):
        if len(a) != 2:
            raise Undecided("element constructed in place")
        return self.m_insert(I, a)

    # std::list
    def _drop(self, I, bad):
        keep, dead = [], []
        for s in self.x:
            (dead if bad(s) else keep).append(s)
        self.x = keep
        for s in dead:
            I.destroy(s)

    def m_remove(self, I, a):
        v = own(I, a[0])
        self._drop(I, lambda s: eq(I, s, v))

    def m_remove_if(self, I, a):
        self._drop(I, lambda s: I.truth(I.call_value(a[0], [s])))

    def m_sort(self, I, a):
        sort_(I, [It(self, 0), It(self, len(self.x))] + a, None)

    def m_unique(self, I, a):
        unique_(I, [It(self, 0), It(self, len(self.x))] + a, None, self)

    def m_reverse(self, I, a):
        self.x = self.x[::-1]

    def m_erase(self, I, a):
        i = a[0].i
        j = a[1].i if len(a) > 1 else i + 1
        if not (0 <= i <= j <= len(self.x)):
            I.ub("erasure outside the container")
        dead = self.x[i:j]
        del self.x[i:j]
        for s in dead:
            I.destroy(s)
        return It(self, i)

    # stack / queue adaptors share the sequence
    def m_push(self, I, a):
        self.m_push_back(I, a)
    m_emplace_ = m_push


class Queue(Vec):
    __slots__ = ()

    def copy_std(self, I, move=False):
        return Queue([I.copy(s) for s in self.x], self.et)

    def m_pop(self, I, a):
        if not self.x:
            I.ub("pop() of an empty queue")
        I.destroy(self.x.pop(0))


class Stack(Vec):
    __slots__ = ()

    def copy_std(self, I, move=False):
        return Stack([I.copy(s) for s in self.x], self.et)

    def m_pop(self, I, a):
        if not self.x:
            I.ub("pop() of an empty stack")
        I.destroy(self.x.pop())


class PQueue(Vec):
    """std::priority_queue as libstdc++ builds it (binary heap)."""
    __slots__ = ("cmp",)

    def __init__(self, x=None, et="", cmp=None):
        Vec.__init__(self, x, et)
        self.cmp = cmp

    def copy_std(self, I, move=False):
        return PQueue([I.copy(s) for s in self.x], self.et, self.cmp)

    def less(self, I, a, b):
        if self.cmp is None:
            return less(I, a, b)
        return I.truth(I.call_value(self.cmp, [a, b]))

    def m_top(self, I, a):
        if not self.x:
            I.ub("top() of an empty priority queue")
        return self.x[0]

    def m_push(self, I, a):
        v = self.mkslot(I, a[0])
        x = self.x
        x.append(v)
        hole = len(x) - 1
        parent = (hole - 1) // 2
        while hole > 0 and self.less(I, x[parent], v):
            x[hole] = x[parent]
            hole = parent
            parent = (hole - 1) // 2
        x[hole] = v
    m_emplace = m_push

    def m_pop(self, I, a):
        x = self.x
        if not x:
            I.ub("pop() of an empty priority queue")
        top = x[0]
        v = x.pop()
        n = len(x)
        if n:
            hole = 0
            second = 0
            while second < (n - 1) // 2:
                second = 2 * (second + 1)
                if self.less(I, x[second], x[second - 1]):
                    second -= 1
                x[hole] = x[second]
                hole = second
            if n % 2 == 0 and second == (n - 2) // 2:
                second = 2 * (second + 1)
                x[hole] = x[second - 1]
                hole = second - 1
            parent = (hole - 1) // 2
            while hole > 0 and self.less(I, x[parent], v):
                x[hole] = x[parent]
                hole = parent
                parent = (hole - 1) // 2
            x[hole] = v
        I.destroy(top)


class Pair:
    __slots__ = ("first", "second", "alive")

    def __init__(self, a, b):
        self.first, self.second = a, b
        self.alive = True

    def items(self):
        return [self.first, self.second]

    def __repr__(self):
        return "(%r, %r)" % (self.first, self.second)

    def copy_std(self, I, move=False):
        return Pair(I.copy(self.first), I.copy(self.second))

    def assign_std(self, I, o, move=False):
        o = rv(I, o)
        I.assign(self.first, o.first)
        I.assign(self.second, o.second)

    def destroy_std(self, I):
        I.destroy(self.first)
        I.destroy(self.second)

    def m_swap(self, I, a):
        o = a[0]
        self.first, o.first = o.first, self.first
        self.second, o.second = o.second, self.second


def keyval(I, k):
    k = rv(I, k)
    if k.__class__ is SStr:
        return k.v
    if k.__class__ is Num:
        k = I.R(k)
        if not k.is_point():
            raise Undecided("unknown number used as a key")
        return k.lo
    if k.__class__ is Pair:
        return (keyval(I, k.first), keyval(I, k.second))
    return k


class MapO:
    __slots__ = ("d", "kt", "vt", "alive", "isset", "down")

    def __init__(self, kt, vt, isset=False, down=False):
        self.d = {}
        self.down = down
        self.kt, self.vt = kt, vt
        self.alive = True
        self.isset = isset

    def keys(self):
        try:
            return sorted(self.d, reverse=self.down)
        except TypeError:
            return sorted(self.d, key=lambda k: getattr(k, "label", None) or str(id(k)))

    def copy_std(self, I, move=False):
        r = MapO(self.kt, self.vt, self.isset, self.down)
        for k in self.keys():
            r.d[k] = I.copy(self.d[k])
        if move:
            self.d = {}
        return r

    def assign_std(self, I, src, move=False):
        src = rv(I, src)
        if src is self:
            return
        if move:
            new, src.d = src.d, {}
        else:
            new = {k: I.copy(src.d[k]) for k in src.keys()}
        for s in self.d.values():
            I.destroy(s)
        self.d = new

    def destroy_std(self, I):
        for s in self.d.values():
            I.destroy(s)

    def n(self):
        return len(self.d)

    def kslot(self, k):
        return SStr(k) if isinstance(k, str) and strip_type(self.kt).startswith("std::basic_string") else Cell(Num(k) if isinstance(k, float) else k)

    def m_size(self, I, a):
        return len(self.d)

    def m_empty(self, I, a):
        return not self.d

    def m_clear(self, I, a):
        for s in self.d.values():
            I.destroy(s)
        self.d = {}

    def m_begin(self, I, a):
        ks = self.keys()
        return MIt(self, ks[0] if ks else None)
    m_cbegin = m_begin

    def m_end(self, I, a):
        return MIt(self, None)
    m_cend = m_end

    def m_rbegin(self, I, a):
        return RIt(MIt(self, None))
    m_crbegin = m_rbegin

    def m_rend(self, I, a):
        return RIt(self.m_begin(I, a))
    m_crend = m_rend

    def _bound(self, I, k, strict):
        k = keyval(I, k)
        for x in self.keys():
            if (x < k if self.down else x > k) or (not strict and x == k):
                return MIt(self, x)
        return MIt(self, None)

    def m_lower_bound(self, I, a):
        return self._bound(I, a[0], False)

    def m_upper_bound(self, I, a):
        return self._bound(I, a[0], True)

    def m_equal_range(self, I, a):
        return Pair(self._bound(I, a[0], False), self._bound(I, a[0], True))

    def m_find(self, I, a):
        k = keyval(I, a[0])
        return MIt(self, k if k in self.d else None)

    def m_count(self, I, a):
        return 1 if keyval(I, a[0]) in self.d else 0

    def m_contains(self, I, a):
        return keyval(I, a[0]) in self.d

    def sub(self, I, k):
        k = keyval(I, k)
        if k not in self.d:
            self.d[k] = Pair(self.kslot(k), as_slot(I, default_zero(I, self.vt)))
        return self.d[k].second

    def m_at(self, I, a):
        k = keyval(I, a[0])
        if k not in self.d:
            raise CppThrow(StdExc("std::out_of_range"), I.where())
        return self.d[k].second

    def m_insert(self, I, a):
        if len(a) == 2 and a[0].__class__ in (It, MIt):
            if a[1].__class__ in (It, MIt):
                for s in rng(I, a[0], a[1]):
                    self.m_insert(I, [s])
                return None
            return self.m_insert(I, a[1:]).first
        if a[0].__class__ is Vec and not strip_type(self.kt).startswith("std::vector"):
            for s in a[0].x:
                self.m_insert(I, [s])
            return None
        if self.isset:
            k = keyval(I, a[0])
            new = k not in self.d
            if new:
                self.d[k] = conv_slot(I, a[0], self.kt)
        else:
            v = a[0] if I.is_obj(a[0]) else rv(I, a[0])
            k = keyval(I, v.first)
            new = k not in self.d
            if new:
                self.d[k] = Pair(self.kslot(k), own(I, v.second))
        return Pair(MIt(self, k), Cell(new))

    def m_emplace(self, I, a):
        if self.isset:
            return self.m_insert(I, a)
        return self.m_insert(I, [Pair(conv_slot(I, a[0], self.kt), conv_slot(I, a[1], self.vt))] if len(a) == 2 else a)

    def m_erase(self, I, a):
        if len(a) == 2:
            it = a[0].copy_std(I)
            while not it.same(a[1]):
                it = self.m_erase(I, [it])
            return it
        if a[0].__class__ is MIt:
            if a[0].k is None:
                I.ub("erase(end()) of a map")
            nxt = a[0].step(I, 1)
            I.destroy(self.d.pop(a[0].k))
            return nxt
        k = keyval(I, a[0])
        if k in self.d:
            I.destroy(self.d.pop(k))
            return 1
        return 0

    def m_swap(self, I, a):
        self.d, a[0].d = a[0].d, self.d


def own(I, v):
    """A new slot holding (a copy of) v."""
    if v.__class__ is Cell:
        return Cell(I.read(v))
    if v.__class__ is CharRef:
        return Cell(v.v)
    if I.is_obj(v):
        return I.copy(v)
    return Cell(v)


class UPtr:
    __slots__ = ("p", "t", "alive", "shared")

    def __init__(self, p=None, t="", shared=None):
        self.p, self.t = p, t
        self.alive = True
        self.shared = shared

    def __repr__(self):
        return "unique_ptr(%r)" % (self.p,)

    def copy_std(self, I, move=False):
        if self.shared is not None:
            self.shared[0] += 1
            return UPtr(self.p, self.t, self.shared)
        r = UPtr(self.p, self.t)
        self.p = None
        return r

    def assign_std(self, I, o, move=False):
        o = rv(I, o)
        if o is None:
            return self.m_reset(I, [])
        if o is self:
            return
        if self.shared is not None or o.shared is not None:
            n = o.copy_std(I)
            self.release(I)
            self.p, self.shared = n.p, n.shared
            return
        p, o.p = o.p, None
        old, self.p = self.p, p
        if old is not None:
            I.delete(old, self.t)

    def release(self, I):
        if self.shared is not None:
            self.shared[0] -= 1
            if self.shared[0] == 0 and self.p is not None:
                I.delete(self.p, None)
        elif self.p is not None:
            p, self.p = self.p, None
            I.delete(p, self.t)

    def destroy_std(self, I):
        self.release(I)

    def m_get(self, I, a):
        return self.p

    def m_release(self, I, a):
        p, self.p = self.p, None
        return p

    def m_reset(self, I, a):
        p = (a[0] if a[0].__class__ is Cell and a[0] in I.heap else rv(I, a[0])) if a else None
        if self.shared is not None:
            self.release(I)
            self.p, self.shared = p, [1]
            return
        old, self.p = self.p, p
        if old is not None:
            I.delete(old, self.t)

    def m_swap(self, I, a):
        self.p, a[0].p = a[0].p, self.p

    def m_operator_bool(self, I, a):
        return self.p is not None


class StdFunction:
    __slots__ = ("f", "alive")

    def __init__(self, f=None):
        self.f = f
        self.alive = True

    def copy_std(self, I, move=False):
        return StdFunction(self.f)

    def assign_std(self, I, o, move=False):
        o = rv(I, o)
        self.f = o.f if o.__class__ is StdFunction else o

    def destroy_std(self, I):
        pass

    def m_operator_bool(self, I, a):
        return self.f is not None


class VaList:
    def __init__(self, items):
        self.items = items


class Manip:
    def __init__(self, k, v):
        self.k, self.v = k, v


FIXED, SCI, LEFT, RIGHT, BOOLALPHA, SKIPWS, DEC, FLOATFIELD = 4, 256, 32, 128, 1, 4096, 2, 260


class Stream:
    """String and file streams (input, output or both)."""
    def __init__(self, kind, s=""):
        self.kind = kind
        self.buf = s
        self.pos = 0
        self.flags = SKIPWS | DEC
        self.prec = 6
        self.width = 0
        self.fill = " "
        self.fail = False
        self.eof = False
        self.alive = True
        self.path = None
        self.open = True

    def __repr__(self):
        return "<%s>" % self.kind

    def copy_std(self, I, move=False):
        raise Undecided("copy of a stream")

    def assign_std(self, I, o, move=False):
        self.buf, self.pos, self.fail = o.buf, o.pos, o.fail

    def destroy_std(self, I):
        self.m_close(I, [])

    # ---- output
    def put(self, I, s):
        if len(s) < self.width:
            pad = self.fill * (self.width - len(s))
            s = s + pad if self.flags & LEFT else pad + s
        self.width = 0
        if self.kind in ("cout", "cerr"):
            I.out.append(s)
        else:
            self.buf += s
            if self.path is not None:
                I.files[self.path] = self.buf

    def put_value(self, I, v):
        c = v.__class__
        if c is Cell:
            return self.put_value(I, I.read(v))
        if c is CharRef:
            v = v.v
            c = str
        if c is SStr:
            if not v.alive:
                I.ub("use of a destroyed string")
            return self.put(I, v.v)
        if c is str:
            return self.put(I, v)
        if c is UBool:
            v = I.truth(v)
            c = bool
        if c is bool:
            return self.put(I, ("true" if v else "false") if self.flags & BOOLALPHA else ("1" if v else "0"))
        if c is int:
            return self.put(I, str(v))
        if c is Num:
            return self.put(I, self.fmt(I, I.R(v)))
        if c is FnRef:
            if v.q in ("std::endl",):
                return self.put(I, "\n")
            if v.q in ("std::flush", "std::ends"):
                return None
            if v.q in MANIPS:
                return MANIPS[v.q](self)
            return self.put(I, "1")
        if c is Manip:
            if v.k == "prec":
                self.prec = v.v
            elif v.k == "width":
                self.width = v.v
            elif v.k == "fill":
                self.fill = v.v
            return None
        if v is UNINIT or v is DEAD:
            I.ub("output of an uninitialised value")
        if v is None or c is Obj or c is FnRef:
            raise CppPointerOutput()
        if c is Stream:
            return self.put(I, v.buf)
        raise Undecided("output of %r" % (v,))

    def fmt(self, I, v):
        if v.only_nan():
            return "nan"
        if v.is_point():
            if v.isint:
                return str(int(v.lo))
            return fmt_double(v.lo, self.flags, self.prec)
        if v.nan:
            # an unknown number that may be NaN: decide which
            if not I.compare("==", v, v):
                return "nan"
            v = I.R(v)
        if v.isint:
            key = (v.tag, "int")
        else:
            if v.hi == N.INF:
                if I.compare("==", v, Num(N.INF)):
                    return "inf"
                v = I.R(v)
            if v.lo == -N.INF:
                if I.compare("==", v, Num(-N.INF)):
                    return "-inf"
                v = I.R(v)
            key = (v.tag, self.flags & FLOATFIELD, self.prec)
        ch = I.atoms.get(key)
        if ch is None:
            ch = chr(ATOM0 + len(I.atoms))
            I.atoms[key] = ch
            I.atom_rev[ch] = v
        return ch

    # ---- input
    def skipws(self):
        while self.pos < len(self.buf) and self.buf[self.pos] in " \t\n\r\v\f":
            self.pos += 1

    def get_value(self, I, lv, t):
        if self.fail:
            return
        st = strip_type(t)
        if lv.__class__ is FnRef or lv.__class__ is Manip:
            return
        if st == "char":
            self.skipws()
            if self.pos >= len(self.buf):
                self.fail = self.eof = True
                return
            lv.v = self.buf[self.pos]
            self.pos += 1
            return
        self.skipws()
        if lv.__class__ is SStr:
            s = self.pos
            while self.pos < len(self.buf) and self.buf[self.pos] not in " \t\n\r\v\f":
                self.pos += 1
            if s == self.pos:
                self.fail = self.eof = True
                return
            lv.v = self.buf[s:self.pos]
            if self.pos >= len(self.buf):
                self.eof = True
            return
        import re
        if is_float_t(st):
            if self.pos < len(self.buf) and is_atom(self.buf[self.pos]) and self.buf[self.pos] in I.atom_rev:
                lv.v = I.R(I.atom_rev[self.buf[self.pos]])
                self.pos += 1
                if self.pos >= len(self.buf):
                    self.eof = True
                return
            m = re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)").match(self.buf, self.pos)
            # libstdc++ accumulates every character that can continue a number
            acc = re.compile(r"[+-]?[0-9.]*([eE][+-]?[0-9]*)?").match(self.buf, self.pos)
            if m is None or (acc and acc.end() > m.end()):
                self.fail = True
                lv.v = Num(0.0)
                if acc:
                    self.pos = acc.end()
                if self.pos >= len(self.buf):
                    self.eof = True
                return
            lv.v = Num(float(m.group(0)))
            self.pos = m.end()
            if abs(lv.v.lo) == N.INF:
                self.fail = True
        elif st in INT_BITS:
            if self.pos < len(self.buf) and is_atom(self.buf[self.pos]) and self.buf[self.pos] in I.atom_rev:
                x = I.atom_rev[self.buf[self.pos]]
                lv.v = int(x.lo) if x.is_point() else x
                self.pos += 1
                if self.pos >= len(self.buf):
                    self.eof = True
                return
            m = re.compile(r"[+-]?\d+").match(self.buf, self.pos)
            if m is None:
                self.fail = True
                lv.v = 0
                if self.pos >= len(self.buf):
                    self.eof = True
                return
            lv.v = int(m.group(0)) if st != "bool" else bool(int(m.group(0)))
            self.pos = m.end()
        else:
            raise Undecided("input of " + t)
        if self.pos >= len(self.buf):
            self.eof = True

    def getline(self, I, s, delim="\n"):
        if self.fail or self.eof:           # nothing is extracted, the text is left as it is
            self.fail = True
            return self
        if self.pos >= len(self.buf):
            s.v = ""
            self.fail = self.eof = True
            return self
        i = self.buf.find(delim, self.pos)
        if i < 0:
            s.v = self.buf[self.pos:]
            self.pos = len(self.buf)
            self.eof = True
        else:
            s.v = self.buf[self.pos:i]
            self.pos = i + 1
        return self

    def m_str(self, I, a):
        if a:
            self.buf = text(I, a[0])
            self.pos = 0
            return None
        return SStr(self.buf)

    def m_precision(self, I, a):
        old = self.prec
        if a:
            self.prec = rv(I, a[0])
        return old

    def m_flags(self, I, a):
        old = self.flags
        if a:
            self.flags = rv(I, a[0])
        return old

    def m_setf(self, I, a):
        old = self.flags
        if len(a) > 1:
            self.flags = (self.flags & ~rv(I, a[1])) | rv(I, a[0])
        else:
            self.flags |= rv(I, a[0])
        return old

    def m_unsetf(self, I, a):
        self.flags &= ~rv(I, a[0])

    def m_width(self, I, a):
        old = self.width
        if a:
            self.width = rv(I, a[0])
        return old

    def m_fill(self, I, a):
        old = self.fill
        if a:
            self.fill = rv(I, a[0])
        return old

    def m_good(self, I, a):
        return not (self.fail or self.eof)

    def m_fail(self, I, a):
        return self.fail

    def m_bad(self, I, a):
        return False

    def m_eof(self, I, a):
        return self.eof

    def m_clear(self, I, a):
        self.fail = self.eof = False

    def m_setstate(self, I, a):
        self.fail = True

    def m_operator_bool(self, I, a):
        return not self.fail

    def m_flush(self, I, a):
        return self

    def m_rdbuf(self, I, a):
        return self

    def m_in_avail(self, I, a):
        return len(self.buf) - self.pos

    def m_get(self, I, a):
        if a:
            if self.fail or self.pos >= len(self.buf):
                self.fail = self.eof = True
                return self
            a[0].v = self.buf[self.pos]
            self.pos += 1
            return self
        if self.pos >= len(self.buf):
            self.fail = self.eof = True
            return -1
        self.pos += 1
        return ord(self.buf[self.pos - 1])

    def m_peek(self, I, a):
        if self.fail or self.eof:
            self.fail = True
            return -1
        if self.pos < len(self.buf):
            return ord(self.buf[self.pos])
        self.eof = True
        return -1

    def m_ignore(self, I, a):
        self.pos += 1
        return self

    def m_put(self, I, a):
        self.put(I, rv(I, a[0]))
        return self

    def m_write(self, I, a):
        self.put(I, text(I, a[0])[:rv(I, a[1])])
        return self

    def m_is_open(self, I, a):
        return self.open

    def m_open(self, I, a):
        self.path = text(I, a[0])
        self.open = True
        if self.path.startswith("/no/such/"):       # a place that does not exist
            self.open = False
            self.fail = True
            self.path = None
        elif "of" in self.kind:
            I.files[self.path] = self.buf = ""
        elif self.path in I.files:
            self.buf = I.files[self.path]
        else:
            self.open = False
            self.fail = True

    def m_close(self, I, a):
        if self.path is not None and self.kind == "ofstream":
            I.files[self.path] = self.buf
        self.open = False


class CppPointerOutput(Undecided):
    def __init__(self):
        Undecided.__init__(self, "a pointer value is printed")


def _flag(s, setb, clr=0):
    s.flags = (s.flags & ~clr) | setb


MANIPS = {"std::fixed": lambda s: _flag(s, FIXED, FLOATFIELD), "std::scientific": lambda s: _flag(s, SCI, FLOATFIELD),
          "std::defaultfloat": lambda s: _flag(s, 0, FLOATFIELD), "std::left": lambda s: _flag(s, LEFT, RIGHT),
          "std::right": lambda s: _flag(s, RIGHT, LEFT), "std::boolalpha": lambda s: _flag(s, BOOLALPHA),
          "std::noboolalpha": lambda s: _flag(s, 0, BOOLALPHA), "std::skipws": lambda s: _flag(s, SKIPWS), "std::ws": lambda s: s.skipws()}


def fmt_double(v, flags, prec):
    if v != v:
        return "nan"
    if v == math.inf:
        return "inf"
    if v == -math.inf:
        return "-inf"
    f = flags & FLOATFIELD
    if f == FIXED:
        return "%.*f" % (prec, v)
    if f == SCI:
        return "%.*e" % (prec, v)
    return "%.*g" % (prec if prec else 1, v)


# ---------------------------------------------------------------- construction by type
PTR_ARRAY = re.compile(r"(\*\s*(?:const)?)\[(\d+)\](?=\))")


def is_array(st):
    """An array, of pointers to functions or members too."""
    return st.endswith("]") or PTR_ARRAY.search(st) is not None


def array_type(st):
    """Element type and number of elements of an array type."""
    m = PTR_ARRAY.search(st)
    if m:
        return PTR_ARRAY.sub(r"\1", st, count=1), int(m.group(2))
    i = st.index("[", st.rindex(">") if ">" in st else 0)
    j = st.index("]", i)
    n = st[i + 1:j]
    return st[:i].strip() + st[j + 1:], int(n) if n.isdigit() else 0


def default_uninit(I, t):
    if "__va_list_tag" in t:
        return Cell(None)
    st = strip_type(t)
    if t.rstrip().endswith("&"):
        return None
    if is_array(st):
        et, n = array_type(st)
        return Vec([as_slot(I, default_uninit(I, et)) for _ in range(n)], et)
    if st.endswith("*") or st in INT_BITS or is_float_t(st) or fnptr(st):
        return Cell(UNINIT)
    if st.endswith("]"):
        et, n = array_type(st)
        return Vec([as_slot(I, default_uninit(I, et)) for _ in range(n)], et)
    v = make_type(I, st)
    if v is None:
        return Cell(UNINIT)
    return v


def default_zero(I, t):
    st = strip_type(t)
    if st.endswith("*") or fnptr(st):
        return None
    if is_float_t(st):
        return Num(0.0)
    if st == "bool":
        return False
    if st == "char":
        return "\0"
    if st in INT_BITS:
        return 0
    if st.endswith("]"):
        et, n = array_type(st)
        return Vec([as_slot(I, default_zero(I, et)) for _ in range(n)], et)
    v = make_type(I, st)
    if v is None:
        return 0
    if v.__class__ is Obj:
        for k, c in v.f.items():
            if c.__class__ is Cell and c.v is UNINIT:
                q = I.p.cls.get(k[0])
                for f in q.fields:
                    if f["n"] == k[1]:
                        c.v = default_zero(I, f["t"])
    return v


def descending(ta):
    """Whether the keys of an associative container are in descending order, given the template arguments after the element type."""
    if not ta or ta[0].startswith("std::less"):
        return False
    if ta[0].startswith("std::greater<"):
        return True
    raise Undecided("order %s of a container" % ta[0][:60])


def _plus(I, t, x, y):
    if rv(I, x).__class__ in (SStr, str):
        return SStr(text(I, x) + text(I, y))
    return _op("+")(I, t, x, y)


def _op(op):
    def g(I, t, x, y):
        x, y = rv(I, x), rv(I, y)
        if is_float_t(t):
            x, y = I.num(x), I.num(y)
        elif t in ("", "void"):
            if x.__class__ is not y.__class__:
                raise Undecided("operator %s on different types" % op)
            t = "double" if x.__class__ is Num else "int"
        elif t in INT_BITS and (x.__class__ is Num or y.__class__ is Num):
            raise Undecided("number used as integer")
        return I.arith(op, x, y, t)
    return g


FUNCTORS = {
    "less": lambda I, t, x, y: less(I, x, y), "greater": lambda I, t, x, y: less(I, y, x),
    "less_equal": _op("<="), "greater_equal": _op(">="), "equal_to": lambda I, t, x, y: eq(I, x, y), "not_equal_to": lambda I, t, x, y: not eq(I, x, y),
    "plus": _plus, "minus": _op("-"), "multiplies": _op("*"), "divides": _op("/"), "modulus": _op("%"),
    "logical_and": lambda I, t, x, y: I.truth(rv(I, x)) and I.truth(rv(I, y)), "logical_or": lambda I, t, x, y: I.truth(rv(I, x)) or I.truth(rv(I, y)),
    "logical_not": lambda I, t, x: not I.truth(rv(I, x)), "negate": lambda I, t, x: I.num(0.0) if False else _neg(I, t, x),
    "bit_and": _op("&"), "bit_or": _op("|"), "bit_xor": _op("^"),
}


def _neg(I, t, x):
    x = rv(I, x)
    return -x if x.__class__ is int else N.neg(I.num(x))


def make_type(I, st):
    """A default-constructed object of class type st, or None when st is an enumeration or otherwise scalar."""
    if st.startswith("std::basic_string"):
        if st.startswith("std::basic_stringstream"):
            return Stream("stringstream")
        return SStr("")
    h = st.split("<")[0]
    if h == "std::vector" or h == "std::deque" or h == "std::list":
        return Vec([], template_args(st)[0])
    if h == "std::array":
        et, n = template_args(st)[:2]
        return Vec([as_slot(I, default_uninit(I, et)) for _ in range(int(n))], et)
    if h == "std::pair":
        a, b = template_args(st)[:2]
        return Pair(as_slot(I, default_zero(I, a)), as_slot(I, default_zero(I, b)))
    if h in ("std::map", "std::unordered_map"):
        ta = template_args(st)
        return MapO(ta[0], ta[1], False, h == "std::map" and descending(ta[2:]))
    if h in ("std::set", "std::unordered_set"):
        ta = template_args(st)
        return MapO(ta[0], "", True, h == "std::set" and descending(ta[1:]))
    if h == "std::unique_ptr":
        return UPtr(None, template_args(st)[0])
    if h == "std::shared_ptr":
        return UPtr(None, template_args(st)[0], [1])
    if h == "std::stack":
        return Stack([], template_args(st)[0])
    if h == "std::queue":
        return Queue([], template_args(st)[0])
    if h == "std::priority_queue":
        a = template_args(st)
        cmp = None
        if len(a) > 2:
            c = a[2]
            fr = I.stack[-1].fn if I.stack else {}
            q = I.resolve_class(c, fr.get("main"))
            if q in I.p.cls:
                cmp = Obj(q)
                I.default_ctor(cmp, q)
            elif c.startswith("std::greater"):
                cmp = StdFunction(lambda I_, th, ar: less(I_, ar[1], ar[0]))
        return PQueue([], a[0], cmp)
    if h in ("std::basic_ostringstream", "std::basic_istringstream", "std::basic_ofstream", "std::basic_ifstream"):
        s = Stream(h[11:])
        if "fstream" in h:
            s.open = False
        return s
    if h == "std::function":
        return StdFunction()
    if st in I.p.cls:
        o = Obj(st)
        I.default_ctor(o, st)
        return o
    if h.startswith("std::") and h[5:] in FUNCTORS:
        f, t = FUNCTORS[h[5:]], strip_type((template_args(st) or [""])[0])
        return StdFunction(lambda I_, th, ar: f(I_, t, *ar))
    if h in ("std::allocator", "std::initializer_list"):
        return StdFunction()
    if h == "std::tuple":
        return Tup([as_slot(I, default_zero(I, x)) for x in template_args(st)])
    if h == "__gnu_cxx::__normal_iterator":
        return It(Vec(), 0)
    if h in ("std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator"):
        return MIt(MapO("", ""), None)
    return None


def construct(I, t, args, fr, n):
    if "__va_list_tag" in t:
        return None
    st = strip_type(t)
    if st.startswith("std::allocator"):
        return StdFunction()
    a = [x(fr) for x in args]
    h = st.split("<")[0]
    if h == "std::basic_string":
        if not a:
            return SStr("")
        x = rv(I, a[0])
        pt = n["pt"]
        if x.__class__ is Num:
            raise Undecided("string of unknown length")
        if x.__class__ is ElPtr and len(a) == 1:
            s = ""
            while True:
                c = rv(I, x.deref(I))
                if c == "\0":
                    return SStr(s)
                s += c
                x = x.step(I, 1)
        a = [v for v in a if v.__class__ is not StdFunction]
        if x.__class__ in (It, RIt, ElPtr, int, Vec):
            return SStr(piece(I, a))
        s = text(I, x)
        if len(a) >= 2 and rv(I, a[1]).__class__ is int:
            p = rv(I, a[1])
            if x.__class__ is SStr:
                m = rv(I, a[2]) if len(a) > 2 and rv(I, a[2]).__class__ is int else NPOS
                if p > len(s):
                    raise CppThrow(StdExc("std::out_of_range"), I.where())
                return SStr(s[p:] if m >= NPOS else s[p:p + m])
            return SStr(s[:p])
        return SStr(s)
    if h == "std::vector" or h == "std::deque" or h == "std::list":
        et = template_args(st)[0]
        v = Vec([], et)
        if not a:
            return v
        x = rv(I, a[0])
        if x.__class__ is Vec and (len(a) == 1 or a[1].__class__ is StdFunction):
            if n["pt"] and n["pt"][0].startswith("std::initializer_list"):
                v.x = [v.mkslot(I, s) for s in x.x]
                return v
            return x.copy_std(I, move=n["move"])
        if x.__class__ in ITS:
            v.x = [v.mkslot(I, s) for s in rng(I, a[0], a[1])]
            return v
        if x.__class__ is Num:
            x = I.R(x)
            if x.is_point():
                x = int(x.lo)
            else:
                raise Undecided("vector of unknown size")
        if x.__class__ is int:
            if x > 200000:
                raise Undecided("vector of size %d" % x)
            fill = a[1] if len(a) > 1 and a[1].__class__ is not StdFunction else None
            v.x = [v.mkslot(I, fill) if fill is not None else as_slot(I, default_zero(I, et)) for _ in range(x)]
            return v
        if x.__class__ is StdFunction:
            return v
        raise Undecided("vector from %r" % (x,))
    if h.startswith("std::") and h[5:] in FUNCTORS:
        return a[0].copy_std(I) if a else make_type(I, st)
    if h == "std::tuple":
        if len(a) == 1 and a[0].__class__ in (Tup, Pair):
            a = a[0].items()
        if not a:
            return make_type(I, st)
        return Tup([conv_slot(I, x, y) if not y.rstrip().endswith("&") else x for x, y in zip(a, template_args(st))])
    if h == "std::istream_iterator":
        if a and a[0].__class__ is IsIt:
            return a[0].copy_std(I)
        return IsIt(a[0] if a else None, template_args(st)[0]).read(I)
    if h == "std::ostream_iterator":
        if a[0].__class__ is OsIt:
            return a[0]
        return OsIt(a[0], text(I, a[1]) if len(a) > 1 else "", template_args(st)[0])
    if h == "std::pair":
        if not a:
            return make_type(I, st)
        if len(a) == 1:
            return a[0].copy_std(I)
        at, bt = template_args(st)[:2]
        return Pair(conv_slot(I, a[0], at), conv_slot(I, a[1], bt))
    if h in ("std::unique_ptr", "std::shared_ptr"):
        u = make_type(I, st)
        if not a:
            return u
        x = a[0] if a[0].__class__ is Cell and a[0] in I.heap else rv(I, a[0])
        if x.__class__ is UPtr:
            y = x.copy_std(I)
            y.t = u.t
            return y
        u.p = x
        return u
    if h in ("std::map", "std::set", "std::unordered_map", "std::unordered_set"):
        m = make_type(I, st)
        if not a or a[0].__class__ is StdFunction:
            return m
        x = rv(I, a[0])
        if x.__class__ is MapO:
            return x.copy_std(I, move=n["move"])
        if x.__class__ is Vec:
            for s in x.x:
                m.m_insert(I, [s])
            return m
        if x.__class__ in ITS:
            for s in rng(I, a[0], a[1]):
                m.m_insert(I, [s])
            return m
    if h in ("std::stack", "std::queue", "std::priority_queue"):
        s = make_type(I, st)
        if a and a[0].__class__ in (Stack, Queue, PQueue):
            return a[0].copy_std(I)
        if h == "std::priority_queue" and a and (a[0].__class__ in (Lam, FnRef) or a[0].__class__ is Obj):
            s.cmp = a[0]
        return s
    if h in ("std::basic_ostringstream", "std::basic_istringstream", "std::basic_stringstream"):
        s = Stream(h[11:])
        if a and rv(I, a[0]).__class__ in (SStr, str):
            s.buf = text(I, a[0])
        return s
    if h in ("std::basic_ofstream", "std::basic_ifstream"):
        s = Stream(h[11:])
        if a:
            s.m_open(I, a)
        else:
            s.open = False
        return s
    if h == "std::reverse_iterator":
        if a and a[0].__class__ in (It, MIt):
            return RIt(a[0])
        if not a:
            return RIt(It(Vec(), 0))
        return a[0].copy_std(I)
    if h in ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator"):
        if not a:
            return make_type(I, st)
        return a[0].copy_std(I)
    if h == "std::function":
        f = StdFunction()
        if a and rv(I, a[0]) is not None:
            x = rv(I, a[0])
            f.f = x.f if x.__class__ is StdFunction else x
        return f
    if st.startswith("std::exception") or st in StdExc.H:
        if a and a[0].__class__ is StdExc:
            return a[0].copy_std(I)
        return StdExc(st, text(I, a[0]) if a else "")
    if a and a[0].__class__ is Lam:
        return a[0]
    if h == "std::initializer_list":
        return a[0] if a else Vec()
    if "std::chrono" in h or h.startswith("std::ratio"):
        return Chrono()
    r = make_type(I, st)
    if r is not None and not a:
        return r
    raise Undecided("construction of %s" % st[:80])


class Chrono:
    alive = True

    def copy_std(self, I, move=False):
        return self

    def assign_std(self, I, o, move=False):
        pass

    def destroy_std(self, I):
        self.alive = True

    def m_count(self, I, a):
        if I.ticks is not None:        # every duration measured takes as long as the scenario says
            return I.ticks
        return Num(0.0, 1e18, False, N.fresh_tag())


def conv_slot(I, v, t):
    if t.rstrip().endswith("*"):
        return Cell(I.read(v) if v.__class__ is Cell else v)
    st = strip_type(t)
    v0 = v if I.is_obj(v) else rv(I, v)
    if is_float_t(st) and v0.__class__ in (int, bool):
        return Cell(Num(float(v0)))
    if v0.__class__ is str and st.startswith("std::basic_string"):
        return SStr(v0)
    return own(I, v0)


# ---------------------------------------------------------------- members, operators
def member(I, o, name):
    if o.__class__ is Pair:
        return o.first if name == "first" else o.second
    if o.__class__ is MIt:
        return member(I, o.deref(I), name)
    if o.__class__ is It or o.__class__ is RIt:
        return member(I, o.deref(I), name)
    if o.__class__ is Cell and o.v.__class__ is Pair:
        return member(I, o.v, name)
    if hasattr(o, "dyn"):              # a field of a user's object reached through an iterator
        I.check_alive(o)
        for (c, f), v in o.f.items():
            if f == name:
                return v
    raise Undecided("member %s of %r" % (name, o))


def index(I, a, i):
    i = rv(I, i)
    if a.__class__ is Cell:
        a = I.read(a)
    if a.__class__ is Vec:
        return a.get(I, i)
    if a.__class__ is ElPtr:
        return ElPtr(a.c, a.i + i).deref(I)
    if a.__class__ is str:
        if not 0 <= i <= len(a):
            I.ub("index outside a character array")
        return Cell(a[i] if i < len(a) else "\0")
    raise Undecided("subscript of %r" % (a,))


RENAME = {"operator bool": "m_operator_bool"}


def mcall(I, ob, name, args, fr, n):
    if ob.__class__ is Cell:
        ob = I.read(ob)
    if not getattr(ob, "alive", True):
        I.ub("call of %s on a destroyed object" % name)
    m = getattr(ob, RENAME.get(name, "m_" + name), None)
    if m is None:
        if name == "operator=":
            v = args[0](fr)
            ob.assign_std(I, v)
            return ob
        if name == "operator bool" and (ob is True or ob is False or ob.__class__ is UBool):
            return ob
        if name.startswith("operator"):
            return apply_op(I, name[8:].strip(), [ob] + [x(fr) for x in args], n)
        raise Undecided("%s::%s" % (ob.__class__.__name__, name))
    a = [x(fr) for x in args]
    if name in ("push_back", "push") and n["pt"] and n["pt"][0].endswith("&&") and I.is_obj(a[0]) and a[0].__class__ is UPtr:
        pass
    return m(I, a)


def eq(I, x, y):
    x, y = rv(I, x), rv(I, y)
    cx, cy = x.__class__, y.__class__
    if cx in (SStr, str) and cy in (SStr, str):
        return text(I, x) == text(I, y)
    if cx in ITS:
        return x.same(y)
    if cx is TypeInfo and cy is TypeInfo:
        return x.q == y.q
    if cx is UPtr:
        return x.p is (y.p if cy is UPtr else y)
    if cy is UPtr:
        return y.p is x
    if cx is Pair:
        return eq(I, x.first, y.first) and eq(I, x.second, y.second)
    if cx is Tup:
        return all(eq(I, p, q) for p, q in zip(x.x, y.x))
    if cx is Vec:
        return len(x.x) == len(y.x) and all(eq(I, p, q) for p, q in zip(x.x, y.x))
    if cx is MapO:
        return x.keys() == y.keys() and all(eq(I, x.d[k], y.d[k]) for k in x.d)
    if cx is Obj and cy is Obj:
        for cl, m in I.p.methods(x.cls, "operator==", 1):
            if "*" not in m["pt"][0]["t"]:
                return I.truth(I.call_uid(m["u"], x, [y]))
        return x is y
    if cx is StdFunction or cy is StdFunction:
        f = x if cx is StdFunction else y
        return f.f is None
    return I.arith("==", x, y, "bool")


def less(I, x, y):
    x, y = rv(I, x), rv(I, y)
    cx = x.__class__
    if cx in (SStr, str):
        return text(I, x) < text(I, y)
    if cx is Pair:
        if less(I, x.first, y.first):
            return True
        if less(I, y.first, x.first):
            return False
        return less(I, x.second, y.second)
    if cx is It or cx is ElPtr:
        return x.i < y.i
    if cx is RIt:
        return less(I, y.b, x.b)
    if cx is Obj:
        for cl, m in I.p.methods(x.cls, "operator<", 1):
            return I.truth(I.call_uid(m["u"], x, [y]))
        raise Undecided("order of %r" % (x,))
    if cx is Vec or cx is Tup:
        for p, q in zip(x.x, y.x):
            if less(I, p, q):
                return True
            if less(I, q, p):
                return False
        return len(x.x) < len(y.x)
    return I.arith("<", x, y, "bool")


def compile_op(I, n, op, args):
    def run(fr):
        a = [x(fr) for x in args]
        return apply_op(I, op, a, n)
    if op == "=":
        def asg(fr):
            v = args[1](fr)
            d = args[0](fr)
            if not getattr(d, "alive", True):
                I.ub("assignment to a destroyed object")
            if d.__class__ is Obj:
                if v.__class__ is Obj:
                    I.assign_obj(d, v)
                    return d
                raise Undecided("assignment of %r to %r" % (v, d))
            if d.__class__ is Cell:
                d.v = rv(I, v)
                return d
            d.assign_std(I, v)
            return d
        return asg
    return run


def apply_op(I, op, a, n):
    x = a[0]
    cx = x.__class__
    if cx is Cell:
        x = I.read(x)
        cx = x.__class__
    if not getattr(x, "alive", True):
        I.ub("use of a destroyed object")
    if op == "->":
        if cx is UPtr:
            return x.p
        if cx in ITS:
            d = x.deref(I)
            return d.v if d.__class__ is Cell else d
    if op == "*" and len(a) == 1:
        if cx is UPtr:
            if x.p is None:
                I.ub("null unique_ptr dereferenced")
            return x.p
        if cx in ITS:
            return x.deref(I)
    if op == "()":
        return I.call_value(x, a[1:])
    if op == "<<":
        if cx is Stream:
            t = (n.get("pt") or [""])[-1]
            v = a[1]
            v0 = rv(I, v) if v.__class__ in (Cell, CharRef) else v
            if v0.__class__ is Obj:
                raise Undecided("output of %r" % v0)
            if v0 is None:
                raise CppPointerOutput()
            x.put_value(I, v0)
            return x
        return I.arith("<<", x, rv(I, a[1]), n["t"])
    if op == ">>":
        if cx is Stream:
            x.get_value(I, a[1], (n.get("pt") or [""])[-1])
            return x
        return I.arith(">>", x, rv(I, a[1]), n["t"])
    if op == "[]":
        i = a[1]
        if cx in (Vec,):
            return x.get(I, i)
        if cx is MapO:
            return x.sub(I, i)
        if cx is SStr:
            i = rv(I, i)
            if not 0 <= i <= len(x.v):
                I.ub("index outside a string")
            return CharRef(x, i)
        if cx is UPtr:
            return index(I, x.p, i)
        if cx is It:
            return x.step(I, rv(I, i)).deref(I)
    if op == "!":
        if cx is Stream:
            return x.fail
        return not I.truth(x)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        y = a[1]
        if op == "==":
            return eq(I, x, y)
        if op == "!=":
            return not eq(I, x, y)
        if op == "<":
            return less(I, x, y)
        if op == ">":
            return less(I, y, x)
        if op == "<=":
            return not less(I, y, x)
        return not less(I, x, y)
    if op == "+":
        if cx in (It, RIt, MIt):
            return x.step(I, rv(I, a[1]))
        y = rv(I, a[1])
        if y.__class__ is It and cx is int:
            return y.step(I, x)
        return SStr(text(I, x) + text(I, y))
    if op == "-":
        if cx in (It, RIt, MIt):
            y = rv(I, a[1])
            if y.__class__ is cx:
                return x.diff(y)
            return x.step(I, -y)
        if cx is Chrono:
            return Chrono()
    if op == "+=":
        if cx is SStr:
            x.v += text(I, a[1])
            return x
        if cx in (It, RIt, MIt):
            x.set(x.step(I, rv(I, a[1])))
            return x
    if op == "-=" and cx in (It, RIt, MIt):
        x.set(x.step(I, -rv(I, a[1])))
        return x
    if op in ("++", "--") and cx in (It, RIt, MIt, IsIt):
        d = 1 if op == "++" else -1
        if len(a) == 2:
            old = x.copy_std(I)
            x.set(x.step(I, d))
            return old
        x.set(x.step(I, d))
        return x
    if op in ("|", "&", "|=", "&=", "~", "^"):
        if op == "~":
            return ~x
        y = rv(I, a[1])
        r = x | y if op[0] == "|" else x & y if op[0] == "&" else x ^ y
        if op.endswith("="):
            a[0].v = r
            return a[0]
        return r
    if op == "=":
        x.assign_std(I, a[1])
        return x
    raise Undecided("operator %s on %r" % (op, x))


class TypeInfo:
    alive = True

    def __init__(self, q):
        self.q = q

    def copy_std(self, I, move=False):
        return self

    def destroy_std(self, I):
        pass


class Placeholder:
    alive = True

    def __init__(self, k):
        self.k = k

    def copy_std(self, I, move=False):
        return self

    def destroy_std(self, I):
        pass


def bind_(I, a, n):
    f = rv(I, a[0])
    bound = []
    for x, t in zip(a[1:], n["pt"][1:]):
        t = t.rstrip("& ").removesuffix("const").rstrip()
        if x.__class__ is Placeholder or "reference_wrapper" in t:
            bound.append(x)
        elif t.endswith("*"):
            bound.append(Cell(rv(I, x) if x.__class__ is Cell else x))
        elif "_Bind" in t:
            raise Undecided("nested std::bind")
        else:
            bound.append(own(I, rv(I, x) if x.__class__ is Cell else x))

    def call(I_, th, ar):
        vs = [ar[x.k - 1] if x.__class__ is Placeholder else x for x in bound]
        if f.__class__.__name__ == "FnRef":
            d = I_.p.fn.get(f.u)
            c = I_.p.cls.get(f.q.rsplit("::", 1)[0])
            if (d is not None and d.get("cls") and not d.get("static")) or (d is None and c is not None):
                return I_.call_member(f, vs[0], vs[1:])
        return I_.call_value(f, vs)
    return StdFunction(call)


def std_global(I, q):
    if q.startswith("std::placeholders::_"):
        return Placeholder(int(q.split("_")[-1]))
    if q in ("std::cout", "std::cerr", "std::clog"):
        return Stream("cout")
    if q.endswith("::npos"):
        return Cell(NPOS)
    flags = {"fixed": FIXED, "scientific": SCI, "left": LEFT, "right": RIGHT, "boolalpha": BOOLALPHA, "dec": DEC, "skipws": SKIPWS,
             "floatfield": FLOATFIELD, "in": 8, "out": 16, "goodbit": 0, "badbit": 1, "eofbit": 2, "failbit": 4, "app": 1, "trunc": 32,
             "binary": 4, "adjustfield": LEFT | RIGHT | 16}
    n = q.split("::")[-1]
    if q.startswith("std::ios") and n in flags:
        return Cell(flags[n])
    if n == "stdin" or q == "std::cin":
        return Stream("istream")
    return None


# ---------------------------------------------------------------- free functions
def f1(fn):
    return lambda I, a, n: fn(I.num(rv(I, a[0])))


def mono1(name, f, inc=True, lo=-N.INF, hi=N.INF):
    def g(x):
        return N.mono(name, f, x, inc, lo, hi)
    return f1(g)


def tan_(x):
    if x.is_point():
        return N.const(math.tan(x.lo))
    return Num(-N.INF, N.INF, True, N.cons("tan", x.tag))


def cosh_(x):
    a = N.absn(x)
    r = N.mono("cosh", lambda v: math.cosh(v) if abs(v) < 710 else N.INF, a)
    return r


def atan2_(I, a, n):
    y, x = I.num(rv(I, a[0])), I.num(rv(I, a[1]))
    if y.is_point() and x.is_point():
        return N.const(math.atan2(y.lo, x.lo))
    if not y.nan and not x.nan and x.lo > 0:
        return N.mk(N._dn(min(math.atan2(p, q) for p in (y.lo, y.hi) for q in (x.lo, x.hi))), N._up(max(math.atan2(p, q) for p in (y.lo, y.hi) for q in (x.lo, x.hi))), False, "atan2", y, x)
    return N.mk(-math.pi, math.pi, y.nan or x.nan, "atan2", y, x)


def abs_(I, a, n):
    v = rv(I, a[0])
    if v.__class__ is int:
        return abs(v)
    return N.absn(I.num(v))


def minmax_(ismin):
    def g(I, a, n):
        if a[0].__class__ is Vec and a[0].et and len(a) == 2 and a[1].__class__ is not Vec:
            return extreme(not ismin)(I, [It(a[0], 0), It(a[0], len(a[0].x)), a[1]], n).deref(I)
        if a[0].__class__ is Vec and len(a) == 1:
            best = a[0].x[0]
            for s in a[0].x[1:]:
                if less(I, s, best) if ismin else less(I, best, s):
                    best = s
            return best
        x, y = rv(I, a[0]), rv(I, a[1])
        if len(a) == 3:
            r = I.truth(I.call_value(a[2], [a[1], a[0]] if ismin else [a[0], a[1]]))
            return a[1] if r else a[0]
        if x.__class__ is Num or y.__class__ is Num:
            p, q = I.num(x), I.num(y)
            r = N.minmax(p, q, ismin)
            r.isint = p.isint and q.isint
            return Cell(r)
        if less(I, y, x) if ismin else less(I, x, y):
            return a[1]
        return a[0]
    return g


def isnan_(I, a, n):
    x = I.num(rv(I, a[0]))
    return not I.compare("==", x, x)


def isinf_(I, a, n):
    x = I.num(rv(I, a[0]))
    return I.compare("==", N.absn(x), Num(N.INF)) if x.lo == -N.INF or x.hi == N.INF else False


def isfinite_(I, a, n):
    return not isnan_(I, a, n) and not isinf_(I, a, n)


def fmaxmin(ismin):
    def g(I, a, n):
        x, y = I.num(rv(I, a[0])), I.num(rv(I, a[1]))
        if x.only_nan():
            return y
        if y.only_nan():
            return x
        if not x.nan and not y.nan:
            return N.minmax(x, y, ismin)
        if isnan_(I, [x], n):
            return y
        if isnan_(I, [y], n):
            return x
        return N.minmax(I.R(x), I.R(y), ismin)
    return g


def round_(x):
    def f(v):
        return v if abs(v) == N.INF else math.copysign(math.floor(abs(v) + 0.5), v)
    return N.rounding("round", f, x)


def trunc_(x):
    return N.rounding("trunc", lambda v: v if abs(v) == N.INF else math.trunc(v), x)


def ctype(pred):
    def g(I, a, n):
        c = rv(I, a[0])
        if c.__class__ is int:
            if c < -1 or 255 < c < 0xE000:
                raise UB("character classification of the value %d, which is not representable as unsigned char" % c)
            if c > 0xFFFF:
                return 0
            if c == -1:
                return 0
            c = chr(c)
        return 1 if pred(c) else 0
    return g


def alnum(c):
    return (c.isalnum() and ord(c) < 128) or is_atom(c) or SYM_ALNUM[0] <= ord(c) <= SYM_ALNUM[1]


def space(c):
    return c in " \t\n\r\v\f" or SYM_SPACE[0] <= ord(c) <= SYM_SPACE[1]


def cp(I, x):
    """An iterator of one's own."""
    x = rv(I, x)
    return x.copy_std(I) if hasattr(x, "copy_std") else x


def seq(I, a, b):
    """The elements of a range that is to be rearranged, and how to put them back."""
    a, b = rv(I, a), rv(I, b)
    if a.__class__ not in (It, ElPtr) or b.__class__ is not a.__class__:
        raise Undecided("range from %r" % (a,))
    c, i, j = a.c, a.i, b.i
    if c.__class__ is SStr:
        def puts(xs):
            c.v = c.v[:i] + "".join(rv(I, x) for x in xs) + c.v[j:]
        return [Cell(ch) for ch in c.v[i:j]], puts
    if not 0 <= i <= j <= len(c.x):
        I.ub("range outside its container")

    def put(xs):
        c.x[i:j] = xs
    return list(c.x[i:j]), put


def order(I, a, k):
    """The order given as argument k, or that of <."""
    if len(a) > k:
        return lambda p, q: I.truth(I.call_value(a[k], [p, q]))
    return lambda p, q: less(I, p, q)


def find_(I, a, n):
    x = cp(I, a[0])
    while not x.same(a[1]):
        if eq(I, x.deref(I), a[2]):
            return x
        x = x.step(I, 1)
    return x


def find_if(neg):
    def g(I, a, n):
        x = cp(I, a[0])
        while not x.same(a[1]):
            if I.truth(I.call_value(a[2], [x.deref(I)])) != neg:
                return x
            x = x.step(I, 1)
        return x
    return g


def search_(I, a, n):
    h, hn = rng(I, a[0], a[1]), rng(I, a[2], a[3])
    same = (lambda p, q: I.truth(I.call_value(a[4], [p, q]))) if len(a) > 4 else (lambda p, q: eq(I, p, q))
    for i in range(len(h) - len(hn) + 1):
        if all(same(h[i + j], hn[j]) for j in range(len(hn))):
            return a[0].step(I, i)
    return cp(I, a[1])


def put(I, d, s):
    """Store s where the output iterator d points; the next position."""
    if d.__class__ is BackIns:
        d.add(I, s)
        return d
    if d.__class__ is OsIt:
        d.s.put_value(I, rv(I, s))
        d.s.put(I, d.d)
        return d
    t = d.deref(I)
    if t.__class__ is CharRef:
        t.assign_std(I, s)
    else:
        I.assign(t, s if I.is_obj(s) else own(I, s).v)
    return d.step(I, 1)


def copy_(I, a, n):
    x = cp(I, a[2])
    for s in rng(I, a[0], a[1]):
        x = put(I, x, s)
    return x


class OsIt:
    """std::ostream_iterator."""

    def __init__(self, s, d, t):
        self.s, self.d, self.t = s, d, t


class IsIt:
    """std::istream_iterator; without a stream it is the end."""
    alive = True

    def __init__(self, s, t):
        self.s, self.t, self.cur = s, t, None

    def read(self, I):
        if self.s is not None:
            c = as_slot(I, default_zero(I, self.t))
            self.s.get_value(I, c, self.t)
            self.cur = c
            if self.s.fail:
                self.s = None
        return self

    def copy_std(self, I, move=False):
        r = IsIt(self.s, self.t)
        r.cur = self.cur
        return r

    def assign_std(self, I, o, move=False):
        self.s, self.cur = o.s, o.cur

    def destroy_std(self, I):
        pass

    def same(self, o):
        return self.s is o.s

    def deref(self, I):
        if self.s is None:
            I.ub("end of a stream dereferenced")
        return self.cur

    def step(self, I, k):
        return self.copy_std(I).read(I)

    def set(self, o):
        self.s, self.cur = o.s, o.cur


class Tup:
    """std::tuple."""
    __slots__ = ("x", "alive")

    def __init__(self, x):
        self.x = x
        self.alive = True

    def items(self):
        return self.x

    def copy_std(self, I, move=False):
        return Tup([own(I, s) for s in self.x])

    def assign_std(self, I, o, move=False):
        vs = [own(I, s) for s in o.items()]
        for d, s in zip(self.x, vs):
            if d is not None:
                I.assign(d, s if I.is_obj(s) else s.v)

    def destroy_std(self, I):
        pass


ITS = (It, RIt, MIt, ElPtr, IsIt)


class BackIns:
    alive = True

    def __init__(self, c, add=None):
        self.c = c
        self.add = add or (lambda I, s: c.m_push_back(I, [s]))

    def copy_std(self, I, move=False):
        return self

    def destroy_std(self, I):
        self.alive = True


def inserter(I, a, n):
    c, it = a[0], cp(I, a[1])
    if c.__class__ is MapO:
        return BackIns(c, lambda I, s: c.m_insert(I, [s]))

    def add(I, s):
        c.m_insert(I, [it, s])
        it.set(it.step(I, 1))
    return BackIns(c, add)


def sort_(I, a, n):
    xs, put = seq(I, a[0], a[1])
    cmp = order(I, a, 2)
    for k in range(1, len(xs)):
        v = xs[k]
        m = k
        while m > 0 and cmp(v, xs[m - 1]):
            xs[m] = xs[m - 1]
            m -= 1
        xs[m] = v
    put(xs)


def sort_first(I, a, n):
    """partial_sort, nth_element: the whole range in order is one of the permitted results."""
    sort_(I, [a[0], a[2]] + a[3:], n)


def unique_(I, a, n, lst=None):
    xs, put = seq(I, a[0], a[1])
    keep, drop = [], []
    for x in xs:
        same = keep and (I.truth(I.call_value(a[2], [keep[-1], x])) if len(a) > 2 else eq(I, keep[-1], x))
        (drop if same else keep).append(x)
    if lst is not None:
        put(keep)
        return
    put(keep + drop)
    return a[0].step(I, len(keep))


def rotate_(I, a, n):
    xs, put = seq(I, a[0], a[2])
    k = a[1].diff(a[0])
    put(xs[k:] + xs[:k])
    return a[0].step(I, len(xs) - k)


def partition_(I, a, n):
    xs, put = seq(I, a[0], a[1])
    yes, no = [], []
    for x in xs:
        (yes if I.truth(I.call_value(a[2], [x])) else no).append(x)
    put(yes + no)
    return a[0].step(I, len(yes))


def fill_n(I, a, n):
    x = cp(I, a[0])
    v = own(I, a[2])
    for _ in range(rv(I, a[1])):
        x = put(I, x, v)
    return x


def generate_(I, a, n):
    for s in rng(I, a[0], a[1]):
        v = I.call_value(a[2], [])
        s.assign_std(I, v) if s.__class__ is CharRef else I.assign(s, v if I.is_obj(v) else rv(I, v))


def generate_n(I, a, n):
    x = cp(I, a[0])
    for _ in range(rv(I, a[1])):
        x = put(I, x, I.call_value(a[2], []))
    return x


def minmax_element(I, a, n):
    cmp = order(I, a, 2)
    x, lo, hi = cp(I, a[0]), cp(I, a[0]), cp(I, a[0])
    while not x.same(a[1]):
        if cmp(x.deref(I), lo.deref(I)):
            lo = x
        if not cmp(x.deref(I), hi.deref(I)):
            hi = x
        x = x.step(I, 1)
    return Pair(own(I, lo), own(I, hi))


def minmax_pair(I, a, n):
    if a[0].__class__ is Vec:
        raise Undecided("minmax of a list")
    less_ = order(I, a, 2)(a[1], a[0])
    return Pair(own(I, a[1] if less_ else a[0]), own(I, a[0] if less_ else a[1]))


def adjacent_find(I, a, n):
    same = (lambda p, q: I.truth(I.call_value(a[2], [p, q]))) if len(a) > 2 else (lambda p, q: eq(I, p, q))
    xs = rng(I, a[0], a[1])
    for k in range(len(xs) - 1):
        if same(xs[k], xs[k + 1]):
            return a[0].step(I, k)
    return cp(I, a[1])


def _second(I, a):
    """End of the second range, if given, and the predicate, if given."""
    b = rv(I, a[3]) if len(a) > 3 else None
    if b is not None and b.__class__ in ITS:
        return b, (a[4] if len(a) > 4 else None)
    return None, (a[3] if len(a) > 3 else None)


def mismatch_(I, a, n):
    end, f = _second(I, a)
    x, y = cp(I, a[0]), cp(I, a[2])
    while not x.same(a[1]) and not (end is not None and y.same(end)):
        p, q = x.deref(I), y.deref(I)
        if not (eq(I, p, q) if f is None else I.truth(I.call_value(f, [p, q]))):
            break
        x, y = x.step(I, 1), y.step(I, 1)
    return Pair(own(I, x), own(I, y))


def lexicographical(I, a, n):
    cmp = order(I, a, 4)
    xs, ys = rng(I, a[0], a[1]), rng(I, a[2], a[3])
    for p, q in zip(xs, ys):
        if cmp(p, q):
            return True
        if cmp(q, p):
            return False
    return len(xs) < len(ys)


def partial_sum(I, a, n):
    x = cp(I, a[2])
    acc = None
    for s in rng(I, a[0], a[1]):
        if acc is None:
            acc = rv(I, own(I, s))
        elif len(a) > 3:
            acc = rv(I, I.call_value(a[3], [acc, s]))
        else:
            acc = _plus(I, "", acc, s)
        x = put(I, x, acc)
    return x


def heap_(kind):
    def g(I, a, n):
        xs, put = seq(I, a[0], a[1])
        cmp = order(I, a, 2)
        if kind == "sort":
            put(xs)
            sort_(I, a, n)
            return
        if kind == "pop":
            if not xs:
                I.ub("pop_heap of an empty range")
            last = xs.pop(0)
        if xs:
            k = 0
            for j in range(1, len(xs)):
                if cmp(xs[k], xs[j]):
                    k = j
            xs[0], xs[k] = xs[k], xs[0]
        put(xs + [last] if kind == "pop" else xs)
    return g


def binary_search(I, a, n):
    x = bound_(False)(I, a, n)
    return not x.same(a[1]) and not order(I, a, 3)(a[2], x.deref(I))


def equal_range(I, a, n):
    if len(a) > 3:
        raise Undecided("equal_range with an order of its own")
    return Pair(bound_(False)(I, a, n), bound_(True)(I, a, n))


def replace_(I, a, n):
    pred = n["q"].endswith("_if")
    old = None if pred else own(I, a[2])
    new = own(I, a[3])
    for s in rng(I, a[0], a[1]):
        if I.truth(I.call_value(a[2], [s])) if pred else eq(I, s, old):
            s.assign_std(I, new) if s.__class__ is CharRef else I.assign(s, new if I.is_obj(new) else new.v)


def is_permutation(I, a, n):
    end, f = _second(I, a)
    if f is not None:
        raise Undecided("is_permutation with a predicate")
    xs = rng(I, a[0], a[1])
    ys = rng(I, a[2], end) if end is not None else [a[2].step(I, k).deref(I) for k in range(len(xs))]
    for x in xs:
        for k, y in enumerate(ys):
            if eq(I, x, y):
                del ys[k]
                break
        else:
            return False
    return not ys


def reverse_copy(I, a, n):
    x = cp(I, a[2])
    for s in reversed(rng(I, a[0], a[1])):
        x = put(I, x, s)
    return x


def unique_copy(I, a, n):
    x = cp(I, a[2])
    last = None
    for s in rng(I, a[0], a[1]):
        if last is None or not (I.truth(I.call_value(a[3], [last, s])) if len(a) > 3 else eq(I, last, s)):
            x = put(I, x, s)
            last = s
    return x


def move_(I, a, n):
    return copy_(I, a, n) if len(a) == 3 else a[0]


def make_tuple(I, a, n):
    ta = template_args(strip_type(n.get("t") or "std::tuple<>"))
    if len(ta) != len(a):
        return Tup([own(I, x) for x in a])
    return Tup([conv_slot(I, x, t) for x, t in zip(a, ta)])


def get_(I, a, n):
    ta = n.get("ta") or [""]
    if not ta[0].isdigit():
        raise Undecided("std::get")
    k, x = int(ta[0]), a[0]
    if x.__class__ in (Pair, Tup):
        return x.items()[k]
    if x.__class__ is Vec:
        return x.get(I, k)
    raise Undecided("std::get of %r" % (x,))


def mem_fn(I, a, n):
    f = rv(I, a[0])
    if f.__class__ is not FnRef:
        raise Undecided("mem_fn of %r" % (f,))
    return StdFunction(lambda I_, th, ar: I_.call_member(f, ar[0], ar[1:]))


def stox(integer):
    def g(I, a, n):
        s = text(I, a[0])
        st = Stream("istringstream", s)
        rest = s.lstrip(" \t\n\r\v\f")
        if rest.lstrip("+-")[:1].lower() in ("i", "n") and not integer or rest.lstrip("+-")[:2].lower() == "0x" or len(a) > 2 and rv(I, a[2]) != 10:
            raise Undecided("conversion of %r" % s)
        c = Cell(Num(0.0) if not integer else 0)
        st.get_value(I, c, "int" if integer else "double")
        if st.fail:
            if rest[:1].isdigit() or rest[1:2].isdigit():
                raise Undecided("conversion of %r" % s)
            raise CppThrow(StdExc("std::invalid_argument", "stoi" if integer else "stod"), I.where())
        if len(a) > 1 and a[1] is not None:
            a[1].v = st.pos
        return c.v
    return g


def strcmp_(I, a, n):
    x, y = text(I, a[0]), text(I, a[1])
    if len(a) > 2:
        k = rv(I, a[2])
        x, y = x[:k], y[:k]
    return -1 if x < y else 1 if x > y else 0


def lround_(I, a, n):
    r = round_(I.num(rv(I, a[0])))
    if not r.is_point() or abs(r.lo) == N.INF:
        raise Undecided("lround of an unknown number")
    return int(r.lo)


def bound_(upper):
    def g(I, a, n):
        first, last, v = a[0], a[1], a[2]
        cnt = last.diff(first)
        pos = cp(I, first)
        while cnt > 0:
            step = cnt // 2
            it = pos.step(I, step)
            d = it.deref(I)
            if upper:
                r = I.truth(I.call_value(a[3], [v, d])) if len(a) > 3 else less(I, v, d)
                go = not r
            else:
                go = I.truth(I.call_value(a[3], [d, v])) if len(a) > 3 else less(I, d, v)
            if go:
                pos = it.step(I, 1)
                cnt -= step + 1
            else:
                cnt = step
        return pos
    return g


def for_each(I, a, n):
    for s in rng(I, a[0], a[1]):
        I.call_value(a[2], [s])
    return a[2]


def quant(kind):
    def g(I, a, n):
        for s in rng(I, a[0], a[1]):
            r = I.truth(I.call_value(a[2], [s]))
            if kind == "any" and r:
                return True
            if kind == "all" and not r:
                return False
            if kind == "none" and r:
                return False
        return kind != "any"
    return g


def is_sorted_(I, a, n):
    xs = list(rng(I, a[0], a[1]))
    cmp = order(I, a, 2)
    return all(not cmp(q, p) for p, q in zip(xs, xs[1:]))


def count_if(I, a, n):
    return sum(1 for s in rng(I, a[0], a[1]) if I.truth(I.call_value(a[2], [s])))


def accumulate(I, a, n):
    acc = rv(I, a[2])
    for s in rng(I, a[0], a[1]):
        if len(a) > 3:
            acc = I.call_value(a[3], [acc, s])
        elif acc.__class__ is SStr:
            acc = SStr(acc.v + text(I, s))
        else:
            acc = I.arith("+", acc, rv(I, s), n["t"])
        acc = rv(I, acc)
    return acc


def copy_if(I, a, n):
    x = cp(I, a[2])
    q = n["q"].split("::")[-1]
    for s in rng(I, a[0], a[1]):
        hit = eq(I, s, a[3]) if q == "remove_copy" else I.truth(I.call_value(a[3], [s]))
        if hit == (q == "copy_if"):
            x = put(I, x, s)
    return x


def copy_n(I, a, n):
    k = rv(I, a[1])
    last = cp(I, a[0])
    for _ in range(k if k.__class__ is int else int(k.lo)):
        last = last.step(I, 1)
    return copy_(I, [a[0], last, a[2]], n)


def iota(I, a, n):
    v = rv(I, a[2])
    for s in rng(I, a[0], a[1]):
        I.assign(s, v)
        v = v + 1 if v.__class__ is int else N.add(v, N.const(1.0))


def inner_product(I, a, n):
    r = rv(I, a[3])
    y = a[2]
    for s in rng(I, a[0], a[1]):
        t = y.deref(I)
        if len(a) > 5:
            r = I.val(I.call_value(a[4], [r, I.call_value(a[5], [s, t])]))
        else:
            r = I.arith("+", r, I.arith("*", I.val(s), I.val(t), n["t"]), n["t"])
        y = y.step(I, 1)
    return r


def transform(I, a, n):
    if len(a) == 4:
        src = [[s] for s in rng(I, a[0], a[1])]
        dst, f = a[2], a[3]
    else:
        xs = rng(I, a[0], a[1])
        src = [[s, a[2].step(I, k).deref(I)] for k, s in enumerate(xs)]
        dst, f = a[3], a[4]
    x = cp(I, dst)
    for s in src:
        v = I.call_value(f, s)
        if x.__class__ is It and x.c.__class__ is SStr:
            v = rv(I, v)
            x.deref(I).v = chr(v & 255) if v.__class__ is int and v < 256 else chr(v) if v.__class__ is int else v
            x = x.step(I, 1)
        else:
            if x.__class__ is BackIns and x.c.__class__ is SStr:
                v = rv(I, v)
                v = chr(v & 255) if v.__class__ is int and v < 256 else chr(v) if v.__class__ is int else v
            x = put(I, x, v)
    return x


def extreme(ismax):
    def g(I, a, n):
        if a[0].same(a[1]):
            return cp(I, a[1])
        best = cp(I, a[0])
        x = best.step(I, 1)
        while not x.same(a[1]):
            p, q = (best.deref(I), x.deref(I)) if ismax else (x.deref(I), best.deref(I))
            r = I.truth(I.call_value(a[2], [p, q])) if len(a) > 2 else less(I, p, q)
            if r:
                best = x
            x = x.step(I, 1)
        return best
    return g


def swap_(I, a, n):
    x, y = a
    if x.__class__ is Cell or x.__class__ is CharRef:
        x.v, y.v = y.v, x.v
    elif hasattr(x, "m_swap"):
        x.m_swap(I, [y])
    else:
        t = I.copy(x)
        I.assign(x, y)
        I.assign(y, t)


def fill_(I, a, n):
    for s in rng(I, a[0], a[1]):
        I.assign(s, own(I, a[2]))


def remove_if(I, a, n):
    xs, put = seq(I, a[0], a[1])
    keep, drop = [], []
    pred = n["q"].endswith("_if")
    v = None if pred else own(I, a[2])
    for s in xs:
        r = I.truth(I.call_value(a[2], [s])) if pred else eq(I, s, v)
        (drop if r else keep).append(s)
    put(keep + drop)
    return a[0].step(I, len(keep))


def reverse_(I, a, n):
    xs, put = seq(I, a[0], a[1])
    put(xs[::-1])


def advance_(I, a, n):
    if a[0].__class__ is Cell:
        a[0].v = I.read(a[0]).step(I, rv(I, a[1]))
        return
    a[0].set(a[0].step(I, rv(I, a[1])))


def begin_(k):
    def g(I, a, n):
        c = a[0]
        if c.__class__ is Cell:
            c = I.read(c)
            if c.__class__ is Vec:
                if k > 1:
                    return RIt(It(c, len(c.x) if k == 2 else 0))
                return ElPtr(c, len(c.x) if k else 0)
        if c.__class__ is Vec and k < 2 and n["t"].rstrip().endswith("*"):
            return ElPtr(c, len(c.x) if k else 0)       # begin and end of an array
        return [c.m_begin, c.m_end, c.m_rbegin, c.m_rend][k](I, [])
    return g


def next_(d):
    def g(I, a, n):
        return a[0].step(I, d * (rv(I, a[1]) if len(a) > 1 else 1))
    return g


def equal_(I, a, n):
    end, f = _second(I, a)
    xs = rng(I, a[0], a[1])
    if end is not None and len(rng(I, a[2], end)) != len(xs):
        return False
    for k, s in enumerate(xs):
        t = a[2].step(I, k).deref(I)
        if not (eq(I, s, t) if f is None else I.truth(I.call_value(f, [s, t]))):
            return False
    return True


def make_pair(I, a, n):
    ta = template_args(strip_type(n["t"])) if n.get("t") and "pair<" in n["t"] else None
    if ta and len(ta) == 2:
        return Pair(conv_slot(I, a[0], ta[0]), conv_slot(I, a[1], ta[1]))
    return Pair(own(I, a[0]), own(I, a[1]))


def to_string(I, a, n):
    v = rv(I, a[0])
    if v.__class__ is int:
        return SStr(str(v))
    s = Stream("ostringstream")
    s.flags |= FIXED
    s.put_value(I, v)
    return SStr(s.buf)


def make_unique(I, a, n):
    t = strip_type(n["t"])
    et = template_args(t)[0]
    shared = n["q"].endswith("make_shared") if n and n.get("q") else False
    if et in I.p.cls:
        cands = [m for m in I.p.cls[et].methods if m["kind"] == "ctor" and sum(1 for p in m["pt"] if not p["d"]) <= len(a) <= len(m["pt"])]
        av = [rv(I, x) if not I.is_obj(x) else x for x in a]
        o = Obj(et)
        if cands:
            m = I.pick(cands, av, et)
            I.run_ctor(m["u"], o, et, [x if p["t"].endswith("&") else v for x, v, p in zip(a, av, m["pt"])])
        else:
            I.trivial_ctor(o, et, [])
        I.on_heap(o)
        u = make_type(I, t)
        u.p = o
        return u
    raise Undecided("make_unique<%s>" % et)


def limits(I, q, n):
    k = q.split("::")[-1]
    c = n.get("cls", "")
    t = template_args(c)[0] if "<" in c else "double"
    if is_float_t(t):
        v = {"quiet_NaN": math.nan, "signaling_NaN": math.nan, "infinity": math.inf, "max": 1.7976931348623157e308, "min": 2.2250738585072014e-308,
             "lowest": -1.7976931348623157e308, "epsilon": 2.220446049250313e-16}[k]
        return N.const(v)
    bits, signed = INT_BITS[t]
    if k == "max":
        return (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    return -(1 << (bits - 1)) if signed else 0


def pow_(I, a, n):
    return N.power(I.num(rv(I, a[0])), I.num(rv(I, a[1])))


def hypot_(I, a, n):
    x, y = I.num(rv(I, a[0])), I.num(rv(I, a[1]))
    return N.sqrt(N.add(N.mul(x, x), N.mul(y, y)))


def rand_(I, a, n):
    return Num(0, 2147483647, False, N.fresh_tag(), True)


FREE = {
    "exp": f1(N.exp), "log": f1(N.log), "sqrt": f1(N.sqrt), "cos": f1(N.cos), "sin": f1(N.sin), "floor": f1(N.floor), "ceil": f1(N.ceil),
    "tan": f1(tan_), "round": f1(round_), "trunc": f1(trunc_), "cosh": f1(cosh_),
    "log10": mono1("log10", lambda v: math.log10(v) if v > 0 else -N.INF if v == 0 else math.nan, lo=0.0),
    "log2": mono1("log2", lambda v: math.log2(v) if v > 0 else -N.INF if v == 0 else math.nan, lo=0.0),
    "log1p": mono1("log1p", lambda v: math.log1p(v) if v > -1 else -N.INF, lo=-1.0), "expm1": mono1("expm1", math.expm1),
    "acos": mono1("acos", math.acos, False, -1.0, 1.0), "asin": mono1("asin", math.asin, True, -1.0, 1.0), "atan": mono1("atan", math.atan),
    "sinh": mono1("sinh", math.sinh), "tanh": mono1("tanh", math.tanh), "asinh": mono1("asinh", math.asinh),
    "acosh": mono1("acosh", math.acosh, lo=1.0), "atanh": mono1("atanh", math.atanh, lo=-1.0, hi=1.0), "cbrt": mono1("cbrt", lambda v: math.copysign(abs(v) ** (1 / 3.0), v)),
    "atan2": atan2_, "abs": abs_, "fabs": abs_, "pow": pow_, "hypot": hypot_,
    "fmod": lambda I, a, n: N.fmod(I.num(rv(I, a[0])), I.num(rv(I, a[1]))),
    "min": minmax_(True), "max": minmax_(False), "fmin": fmaxmin(True), "fmax": fmaxmin(False),
    "isnan": isnan_, "isinf": isinf_, "isfinite": isfinite_, "__builtin_isnan": isnan_, "__builtin_isfinite": isfinite_,
    "isspace": ctype(space), "isalnum": ctype(alnum), "isalpha": ctype(lambda c: alnum(c) and not c.isdigit()),
    "isdigit": ctype(lambda c: c.isdigit() and ord(c) < 128), "isgraph": ctype(lambda c: 32 < ord(c) < 127 or is_atom(c)), "isprint": ctype(lambda c: 32 <= ord(c) < 127 or is_atom(c)),
    "ispunct": ctype(lambda c: 32 < ord(c) < 127 and not alnum(c)), "isupper": ctype(lambda c: c.isupper() and ord(c) < 128), "islower": ctype(lambda c: c.islower() and ord(c) < 128),
    "toupper": lambda I, a, n: ord(chr(_ord(I, a[0])).upper()) if _ord(I, a[0]) < 128 and _ord(I, a[0]) >= 0 else _ord(I, a[0]),
    "tolower": lambda I, a, n: ord(chr(_ord(I, a[0])).lower()) if _ord(I, a[0]) < 128 and _ord(I, a[0]) >= 0 else _ord(I, a[0]),
    "rotate": rotate_, "fill_n": fill_n, "generate": generate_, "generate_n": generate_n, "unique": unique_, "unique_copy": unique_copy, "partition": partition_,
    "stable_partition": partition_, "partial_sort": sort_first, "nth_element": sort_first, "minmax_element": minmax_element, "minmax": minmax_pair,
    "adjacent_find": adjacent_find, "mismatch": mismatch_, "lexicographical_compare": lexicographical, "partial_sum": partial_sum,
    "make_heap": heap_("make"), "push_heap": heap_("push"), "pop_heap": heap_("pop"), "sort_heap": heap_("sort"), "binary_search": binary_search, "equal_range": equal_range,
    "replace": replace_, "replace_if": replace_, "is_permutation": is_permutation, "reverse_copy": reverse_copy, "remove_copy": copy_if, "inserter": inserter,
    "front_inserter": lambda I, a, n: BackIns(a[0], lambda I_, s: a[0].m_push_front(I_, [s])),
    "make_move_iterator": lambda I, a, n: a[0], "make_tuple": make_tuple, "tie": lambda I, a, n: Tup(list(a)), "get": get_, "mem_fn": mem_fn, "bind": bind_,
    "stod": stox(False), "stoi": stox(True), "strcmp": strcmp_, "strncmp": strcmp_, "nan": lambda I, a, n: N.NAN,
    "find": find_, "find_if": find_if(False), "find_if_not": find_if(True), "search": search_, "copy": copy_, "copy_if": copy_if, "remove_copy_if": copy_if, "copy_n": copy_n, "iota": iota, "inner_product": inner_product, "sort": sort_, "stable_sort": sort_, "is_sorted": is_sorted_,
    "lower_bound": bound_(False), "upper_bound": bound_(True), "for_each": for_each, "any_of": quant("any"), "all_of": quant("all"),
    "none_of": quant("none"), "count_if": count_if, "count": lambda I, a, n: sum(1 for s in rng(I, a[0], a[1]) if eq(I, s, a[2])),
    "accumulate": accumulate, "transform": transform, "max_element": extreme(True), "min_element": extreme(False), "swap": swap_, "iter_swap": lambda I, a, n: swap_(I, [a[0].deref(I), a[1].deref(I)], n),
    "fill": fill_, "remove_if": remove_if, "remove": remove_if, "reverse": reverse_, "advance": advance_, "next": next_(1), "prev": next_(-1), "equal": equal_,
    "distance": lambda I, a, n: a[1].diff(a[0]), "make_pair": make_pair, "to_string": to_string, "make_unique": make_unique, "make_shared": make_unique,
    "move": move_, "forward": lambda I, a, n: a[0], "ref": lambda I, a, n: a[0], "cref": lambda I, a, n: a[0], "addressof": lambda I, a, n: a[0], "__addressof": lambda I, a, n: a[0],
    "as_const": lambda I, a, n: a[0], "back_inserter": lambda I, a, n: BackIns(a[0]),
    "begin": begin_(0), "end": begin_(1), "cbegin": begin_(0), "cend": begin_(1), "rbegin": begin_(2), "rend": begin_(3), "rand": rand_,
    "setprecision": lambda I, a, n: Manip("prec", rv(I, a[0])), "setw": lambda I, a, n: Manip("width", rv(I, a[0])), "setfill": lambda I, a, n: Manip("fill", rv(I, a[0])),
    "signbit": lambda I, a, n: I.compare("<", I.num(rv(I, a[0])), Num(0.0)),
    "strlen": lambda I, a, n: len(text(I, a[0])), "now": lambda I, a, n: Chrono(), "exchange": lambda I, a, n: exchange(I, a),
    "getline": lambda I, a, n: a[0].getline(I, a[1], rv(I, a[2]) if len(a) > 2 else "\n"),
    "__builtin_expect": lambda I, a, n: rv(I, a[0]), "lround": lround_,
    "time": lambda I, a, n: 0, "clock": rand_,
}


def exchange(I, a):
    old = rv(I, a[0])
    if a[0].__class__ is Cell:
        a[0].v = rv(I, a[1])
        return old
    o = I.copy(a[0])
    a[0].assign_std(I, a[1])
    return o


def _ord(I, x):
    x = rv(I, x)
    return ord(x) if x.__class__ is str else x


TRAITS = {"eof": lambda: -1, "eq": lambda x, y: x == y, "lt": lambda x, y: x < y, "to_int_type": lambda x: ord(x) if x.__class__ is str else x & 255,
          "to_char_type": lambda x: x, "eq_int_type": lambda x, y: x == y, "not_eof": lambda x: 0 if x == -1 else x}


def call_free(I, q, a, n):
    if q.startswith("__builtin_va_end"):
        return None
    if "numeric_limits" in q:
        return limits(I, q, n)
    k = q.split("::")[-1]
    if q.startswith("std::operator") or q.startswith("__gnu_cxx::operator"):
        return apply_op(I, k[8:].strip(), a, n)
    if "char_traits" in q and k in TRAITS:
        return TRAITS[k](*[rv(I, x) for x in a])
    f = FREE.get(k)
    if f is None:
        raise Undecided("library function %s" % q)
    if n is not None and "q" not in n:
        n = dict(n, q=q)
    r = f(I, a, n)
    if q == "std::min" or q == "std::max":
        return r if (n or {}).get("gl") else rv(I, r)
    return r
