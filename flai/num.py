"""Scalar domain: closed interval with outward rounding + a flag for NaN + an optional identity.

A point interval without NaN is a constant and is folded with IEEE-754 arithmetic (the same as at run time)."""
import math
INF = math.inf
_na = math.nextafter
_cons = {}
_names = {}          # id -> leaf name (for reports)


def cons(*key):
    """Hash-consed identity of an expression: equal ids mean the same expression over the same leaves."""
    i = _cons.get(key)
    if i is None:
        i = len(_cons) + 1
        _cons[key] = i
    return i


_serial = [0]


def fresh_tag():
    _serial[0] += 1
    return cons("s", _serial[0])


def leaf(name, lo, hi=None, nan=False, isint=False):
    t = cons("in", name)
    _names[t] = name
    return Num(lo, hi, nan, t, isint)


def is_leaf(tag):
    return tag in _names


def _dn(v):
    return v if v in (INF, -INF) else _na(v, -INF)


def _up(v):
    return v if v in (INF, -INF) else _na(v, INF)


class Num:
    """lo > hi means that the value can only be NaN."""
    __slots__ = ("lo", "hi", "nan", "_tag", "isint")

    def __init__(self, lo, hi=None, nan=False, tag=None, isint=False):
        if hi is None:
            hi = lo
        if lo != lo or hi != hi:
            lo, hi, nan = INF, -INF, True
        self.lo = lo
        self.hi = hi
        self.nan = nan
        self._tag = tag
        self.isint = isint

    @property
    def tag(self):
        t = self._tag
        if t is None:
            if self.lo == self.hi and not self.nan:
                t = cons("c", self.lo, math.copysign(1.0, self.lo)) if self.lo == 0 else cons("c", self.lo)
            elif self.nan and self.lo > self.hi:
                t = cons("nan")
            else:
                t = fresh_tag()
            self._tag = t
        return t

    def empty(self):
        return self.lo > self.hi

    def only_nan(self):
        return self.nan and self.lo > self.hi

    def is_point(self):
        return self.lo == self.hi and not self.nan

    def __repr__(self):
        if self.only_nan():
            return "nan"
        s = repr(self.lo) if self.lo == self.hi else "[%r, %r]" % (self.lo, self.hi)
        return s + ("|nan" if self.nan else "")


NAN = Num(INF, -INF, True)
NAN._tag = cons("nan")


def const(v):
    return NAN if v != v else Num(v, v)


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return Num(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)


COMM = {"add", "mul"}


def mk(lo, hi, nan, op, *xs):
    if len(xs) == 2:
        t, u = xs[0].tag, xs[1].tag
        if op in COMM and t > u:
            t, u = u, t
        return Num(lo, hi, nan, cons(op, t, u))
    return Num(lo, hi, nan, cons(op, *[x.tag for x in xs]))


def neg(a):
    if a.is_point():
        return Num(-a.lo)
    return mk(-a.hi, -a.lo, a.nan, "neg", a)


def add(a, b):
    if a.is_point() and b.is_point():
        return const(a.lo + b.lo)
    if a.only_nan() or b.only_nan():
        return NAN
    nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
    lo = a.lo + b.lo
    hi = a.hi + b.hi
    if lo != lo:
        lo = -INF if not (a.lo == a.hi and b.lo == b.hi) else INF
    if hi != hi:
        hi = INF if not (a.lo == a.hi and b.lo == b.hi) else -INF
    return mk(_dn(lo), _up(hi), nan, "add", a, b)


def sub(a, b):
    if a.is_point() and b.is_point():
        return const(a.lo - b.lo)
    if a.only_nan() or b.only_nan():
        return NAN
    if a.tag == b.tag and not a.nan and a.lo > -INF and a.hi < INF:
        return Num(0.0)
    nan = a.nan or b.nan or (a.hi == INF and b.hi == INF) or (a.lo == -INF and b.lo == -INF)
    lo = a.lo - b.hi
    hi = a.hi - b.lo
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return mk(_dn(lo), _up(hi), nan, "sub", a, b)


def _m(x, y):
    p = x * y
    return 0.0 if p != p else p


def mul(a, b):
    if a.is_point() and b.is_point():
        return const(a.lo * b.lo)
    if a.only_nan() or b.only_nan():
        return NAN
    if a.tag == b.tag:
        m = max(abs(a.lo), abs(a.hi))
        l = 0.0 if a.lo <= 0.0 <= a.hi else min(abs(a.lo), abs(a.hi))
        return mk(_dn(_m(l, l)) if l > 0 else 0.0, _up(_m(m, m)), a.nan, "mul", a, b)
    nan = a.nan or b.nan
    ia = a.lo == -INF or a.hi == INF
    ib = b.lo == -INF or b.hi == INF
    if (ia and b.lo <= 0 <= b.hi) or (ib and a.lo <= 0 <= a.hi):
        nan = True
    ps = (_m(a.lo, b.lo), _m(a.lo, b.hi), _m(a.hi, b.lo), _m(a.hi, b.hi))
    lo, hi = min(ps), max(ps)
    return mk(lo if lo == 0.0 and (a.lo >= 0 and b.lo >= 0) else _dn(lo), _up(hi), nan, "mul", a, b)


def fdiv(x, y):
    if y == 0:
        if x == 0 or x != x:
            return math.nan
        s = math.copysign(1.0, x) * math.copysign(1.0, y)
        return INF * s
    if x in (INF, -INF) and y in (INF, -INF):
        return math.nan
    return x / y


def div(a, b):
    if a.only_nan() or b.only_nan():
        return NAN
    if a.is_point() and b.is_point():
        return const(fdiv(a.lo, b.lo))
    nan = a.nan or b.nan
    if b.lo <= 0 <= b.hi:
        if a.lo <= 0 <= a.hi:
            nan = True
        if b.lo == 0 and b.hi == 0:
            # x/0 = +-inf; sign of zero taken as written (+0 for constants)
            s = math.copysign(1.0, b.lo)
            lo, hi = (-INF if a.lo < 0 else INF), (INF if a.hi > 0 else -INF)
            if s < 0:
                lo, hi = -hi, -lo
            return mk(lo, hi, nan, "div", a, b)
        if b.lo == 0 and a.lo >= 0 and a.lo > -INF:
            v = fdiv(a.lo, b.hi)
            return mk(max(0.0, _dn(v)) if v == v else 0.0, INF, nan, "div", a, b)
        return mk(-INF, INF, nan, "div", a, b)
    if (a.lo == -INF or a.hi == INF) and (b.lo == -INF or b.hi == INF):
        nan = True
    qs = [fdiv(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    qs = [0.0 if q != q else q for q in qs]
    if (a.lo in (INF, -INF) or a.hi in (INF, -INF)) and (b.lo == -INF or b.hi == INF):
        qs += [0.0, INF if a.hi > 0 and b.hi > 0 or a.lo < 0 and b.lo < 0 else 0.0, -INF if a.lo < 0 and b.hi > 0 or a.hi > 0 and b.lo < 0 else 0.0]
    lo, hi = min(qs), max(qs)
    return mk(lo if lo == 0.0 and a.lo >= 0 and b.lo > 0 else _dn(lo), _up(hi), nan, "div", a, b)


def absn(a):
    if a.only_nan():
        return NAN
    if a.is_point():
        return Num(abs(a.lo))
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return mk(-a.hi, -a.lo, a.nan, "abs", a)
    return mk(0.0, max(-a.lo, a.hi), a.nan, "abs", a)


def mono(name, f, a, inc=True, lo_dom=-INF, hi_dom=INF):
    """Monotone libm function on a domain; outside the domain NaN."""
    if a.only_nan():
        return NAN
    if a.is_point():
        try:
            return const(f(a.lo)) if lo_dom <= a.lo <= hi_dom else NAN
        except (ValueError, OverflowError):
            return const(_special(name, a.lo))
    nan = a.nan or a.lo < lo_dom or a.hi > hi_dom
    l, h = max(a.lo, lo_dom), min(a.hi, hi_dom)
    if l > h:
        return NAN

    def ev(v):
        try:
            return f(v)
        except (ValueError, OverflowError):
            return _special(name, v)
    x, y = ev(l), ev(h)
    if not inc:
        x, y = y, x
    if x != x or y != y:
        return Num(-INF, INF, True)
    return mk(_dn(_dn(x)) if x != 0 else (0.0 if name in ("exp", "sqrt") else _dn(x)), _up(_up(y)), nan, name, a)


def _special(name, v):
    if name == "exp":
        return INF if v > 0 else 0.0
    if name in ("log", "log10"):
        return -INF if v == 0 else math.nan if v < 0 else INF
    if name == "log1p":
        return -INF if v == -1 else math.nan
    if name in ("sinh",):
        return INF if v > 0 else -INF
    if name in ("cosh",):
        return INF
    if name == "atanh":
        return INF if v == 1 else -INF if v == -1 else math.nan
    return math.nan


def exp(a):
    return mono("exp", math.exp, a)


def log(a):
    r = mono("log", lambda v: math.log(v) if v > 0 else (-INF if v == 0 else math.nan), a, lo_dom=0.0)
    return r


def sqrt(a):
    r = mono("sqrt", lambda v: INF if v == INF else math.sqrt(v), a, lo_dom=0.0)
    return r


def cos(a):
    if a.only_nan():
        return NAN
    if a.lo == -INF or a.hi == INF:
        return Num(-1.0, 1.0, True)
    if a.is_point():
        return Num(math.cos(a.lo))
    if a.hi - a.lo >= 2 * math.pi:
        return mk(-1.0, 1.0, a.nan, "cos", a)
    k = math.ceil(a.lo / math.pi)
    vals = [math.cos(a.lo), math.cos(a.hi)]
    while k * math.pi <= a.hi:
        vals.append(1.0 if k % 2 == 0 else -1.0)
        k += 1
    return mk(max(-1.0, _dn(min(vals))), min(1.0, _up(max(vals))), a.nan, "cos", a)


def sin(a):
    if a.is_point():
        return Num(math.sin(a.lo))
    r = cos(sub(a, Num(math.pi / 2)))
    return mk(r.lo, r.hi, r.nan, "sin", a)


def floor(a):
    return rounding("floor", math.floor, a)


def ceil(a):
    return rounding("ceil", math.ceil, a)


def rounding(name, f, a):
    if a.only_nan():
        return NAN

    def g(v):
        return v if v in (INF, -INF) else math.copysign(float(f(v)), v) if f(v) == 0 else float(f(v))
    if a.is_point():
        return Num(g(a.lo))
    return mk(g(a.lo), g(a.hi), a.nan, name, a)


def fpow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return INF if x > 0 or float(y).is_integer() and int(y) % 2 == 0 else -INF
    except ValueError:
        if x == 0:
            return INF
        return math.nan


def power(a, b):
    if b.is_point() and b.lo == 0:
        return Num(1.0)
    if a.is_point() and a.lo == 1.0:
        return Num(1.0)
    if a.only_nan() or b.only_nan():
        return NAN
    if a.is_point() and b.is_point():
        return const(fpow(a.lo, b.lo))
    nan = a.nan or b.nan
    if b.is_point() and float(b.lo).is_integer() and b.lo > 0 and b.lo < 1e6:
        n = int(b.lo)
        x, y = fpow(a.lo, n), fpow(a.hi, n)
        if n % 2 == 0:
            lo = 0.0 if a.lo <= 0 <= a.hi else min(x, y)
            hi = max(x, y)
        else:
            lo, hi = x, y
        return mk(lo if lo == 0.0 and (n % 2 == 0 or a.lo >= 0) else _dn(_dn(lo)), _up(_up(hi)), nan, "pow", a, b)
    if a.lo >= 0:
        vs = [fpow(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        if any(v != v for v in vs):
            return Num(-INF, INF, True)
        if a.lo < 1 < a.hi:
            vs.append(1.0)
        lo, hi = min(vs), max(vs)
        return mk(max(0.0, _dn(_dn(lo))), _up(_up(hi)), nan, "pow", a, b)
    return mk(-INF, INF, True, "pow", a, b)


def fmod(a, b):
    if a.only_nan() or b.only_nan():
        return NAN
    if a.is_point() and b.is_point():
        try:
            return const(math.fmod(a.lo, b.lo))
        except ValueError:
            return NAN
    if b.is_point() and b.lo != 0 and a.lo > -INF and a.hi < INF and not a.nan:
        m = abs(b.lo)
        k1, k2 = math.trunc(a.lo / m), math.trunc(a.hi / m)
        if k1 == k2 and (a.lo >= 0) == (a.hi >= 0):
            return mk(_dn(math.fmod(a.lo, m)), _up(math.fmod(a.hi, m)), False, "fmod", a, b)
    m = max(abs(b.lo), abs(b.hi))
    return mk(-m, m, True, "fmod", a, b)


def minmax(a, b, ismin):
    """std::min/std::max on doubles: NaN comparisons are false, so a NaN first argument is kept."""
    # std::min(a,b) = b<a ? b : a ;  std::max(a,b) = a<b ? b : a
    if a.only_nan():
        return a
    if b.only_nan():
        return a
    if not a.nan and not b.nan:
        if a.hi < b.lo:
            return a if ismin else b
        if b.hi < a.lo:
            return b if ismin else a
        if a.tag == b.tag:
            return a
    if ismin:
        lo, hi = min(a.lo, b.lo), min(a.hi, b.hi)
    else:
        lo, hi = max(a.lo, b.lo), max(a.hi, b.hi)
    if b.nan:
        lo, hi = min(lo, a.lo), max(hi, a.hi)
    return mk(lo, hi, a.nan, "min" if ismin else "max", a, b)


def orderings(a, b):
    """Possible outcomes of comparing a with b: subset of '<', '=', '>', 'u' (unordered)."""
    r = []
    if not a.empty() and not b.empty():
        if a._tag is not None and a._tag == b._tag:
            r.append("=")
        else:
            if a.lo < b.hi:
                r.append("<")
            if a.lo <= b.hi and b.lo <= a.hi:
                r.append("=")
            if a.hi > b.lo:
                r.append(">")
    if a.nan or b.nan:
        r.append("u")
    return r
