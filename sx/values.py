"""Symbolic values: booleans, exact integers, rationals, strings and bytes.

Strings have a concrete length; every character is a concrete code point or a
``Ch`` (8-bit vector: Latin-1).  Integers are signed bit-vectors whose width is
recomputed from a tracked interval at every operation, so arithmetic is exact
(never wraps).  Each proxy reports the builtin type as its ``__class__``.
"""
import z3
from fractions import Fraction
from .core import E, PathAbort
from .ctx import ALIAS, LATIN

FULL = (1 << 256) - 1
TCHR = list(LATIN)
_TORD = {c: i for i, c in ALIAS.items()}
_REAL = 0x110000          # code of the plain C1 controls whose place is taken
M_ALIAS = sum(1 << i for i in ALIAS)


def tchr(o):
    """text character of a code"""
    return TCHR[o] if o < 256 else chr(o - _REAL if o >= _REAL else o)


def tord(c):
    """code of a text character"""
    o = _TORD.get(c)
    if o is None:
        o = ord(c)
        if o in ALIAS:
            o += _REAL
    return o


def mask_of(chars):
    m = 0
    for c in chars:
        o = tord(c) if isinstance(c, str) else c
        if o < 256:
            m |= 1 << o
    return m


def _pred_mask(fn):
    return mask_of([i for i in range(256) if fn(TCHR[i])])


M_DIGIT = mask_of("0123456789")
M_HEX = mask_of("0123456789abcdefABCDEF")
M_SPACE = _pred_mask(str.isspace)
M_ASCII = (1 << 128) - 1
M_TAG = mask_of("0123456789#")
M_FRAME = mask_of("0123456789#*")
M_BSPACE = mask_of(" \t\n\r\x0b\x0c")

_b8 = [z3.BitVecVal(i, 8) for i in range(256)]


def mask_ranges(m):
    out = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> (j + 1)) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            low = (m >> i) & -(m >> i)
            i += low.bit_length() - 1
    return out


def mask_vals(m):
    return [i for lo, hi in mask_ranges(m) for i in range(lo, hi + 1)]


# --------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("e", "conj")
    __sym__ = True

    def __init__(self, e, conj=None):
        self.e = e
        self.conj = conj  # list of (Ch, mask): e is exactly their conjunction

    __class__ = property(lambda self: bool)

    def __bool__(self):
        # domain fast path
        if self.conj is not None:
            rest = False
            for ch, m in self.conj:
                p = ch.poss()
                if not p & m:
                    return False
                if p & ~m:
                    rest = True
            if not rest:
                return True
        r = E.decide(self.e)
        if self.conj is not None:
            if r:
                for ch, m in self.conj:
                    ch.refine(m)
            elif len(self.conj) == 1:
                ch, m = self.conj[0]
                ch.refine(FULL & ~m)
        return r

    def __invert__(self):
        return ~sint(self)

    def not_(self):
        if self.conj is not None and len(self.conj) == 1:
            ch, m = self.conj[0]
            return SymBool(z3.Not(self.e), [(ch, FULL & ~m)])
        return SymBool(z3.Not(self.e))

    def _i(self):
        return sint(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return self if o else self.not_()
        if type(o) in (int, SymInt):
            return sint(self) == o
        if isinstance(o, float) or type(o) is SymFloat:
            return sint(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return b_and([self, o])
        return sint(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return b_or([self, o])
        return sint(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(z3.Xor(self.e, bz(o)))
        return sint(self) ^ o

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _fwd(name):
    def f(self, *a):
        return getattr(sint(self), name)(*a)
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ __neg__ "
           "__floordiv__ __rfloordiv__ __mod__ __rmod__ __truediv__ __lshift__ __rshift__").split():
    setattr(SymBool, _n, _fwd(_n))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bz(b):
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def b_not(b):
    if type(b) is SymBool:
        return b.not_()
    return not b


def b_and(bs):
    out = []
    conj = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b)
            if conj is not None:
                conj = None if b.conj is None else conj + b.conj
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(z3.And([b.e for b in out]), conj)


def b_or(bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    # merge single tests of the same character
    if all(b.conj is not None and len(b.conj) == 1 for b in out):
        ch = out[0].conj[0][0]
        if all(b.conj[0][0] is ch for b in out):
            m = 0
            for b in out:
                m |= b.conj[0][1]
            return ch_in(ch, m)
    return SymBool(z3.Or([b.e for b in out]))


# --------------------------------------------------------------------- integers
def width_for(lo, hi):
    w = 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


def ext(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


class SymInt:
    __slots__ = ("e", "lo", "hi", "prov")
    __sym__ = True

    def __init__(self, e, lo, hi, prov=None):
        w = width_for(lo, hi)
        self.e = ext(e, w)
        self.lo = lo
        self.hi = hi
        self.prov = prov  # list of digit characters it was read from

    __class__ = property(lambda self: int)

    def at(self, w):
        return ext(self.e, w)

    # ---- arithmetic
    def _bin(self, o, lo, hi, f):
        o = sint(o)
        w = max(width_for(lo, hi), width_for(self.lo, self.hi), width_for(o.lo, o.hi))
        return SymInt(f(self.at(w), o.at(w)), lo, hi)

    def __add__(self, o):
        if not is_int(o):
            return _numf("__add__", self, o)
        o = sint(o)
        return self._bin(o, self.lo + o.lo, self.hi + o.hi, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if not is_int(o):
            return _numf("__sub__", self, o)
        o = sint(o)
        return self._bin(o, self.lo - o.hi, self.hi - o.lo, lambda a, b: a - b)

    def __rsub__(self, o):
        if not is_int(o):
            return _numf("__rsub__", self, o)
        return sint(o) - self

    def __neg__(self):
        return sint(0) - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = -self
        hi = max(abs(self.lo), abs(self.hi))
        w = max(width_for(0, hi), width_for(self.lo, self.hi), n.e.size())
        return SymInt(z3.If(self.at(w) < 0, n.at(w), self.at(w)), 0, hi)

    def __mul__(self, o):
        if type(o) in (str, SymStr, bytes, list, tuple):
            return o * realise_int(self)
        if not is_int(o):
            return _numf("__mul__", self, o)
        o = sint(o)
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = min(c), max(c)
        return self._bin(o, lo, hi, lambda a, b: a * b)

    __rmul__ = __mul__

    def _divmod(self, o):
        """Python floor division / modulo."""
        o = sint(o)
        if o.lo <= 0 <= o.hi:
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        if o.lo == o.hi and self.lo >= 0 and o.lo > 0:
            d = o.lo
            lo, hi = self.lo // d, self.hi // d
            w = max(width_for(self.lo, self.hi), width_for(d, d))
            a, b = self.at(w), o.at(w)
            q = SymInt(z3.UDiv(a, b), lo, hi)
            r = SymInt(z3.URem(a, b), 0 if lo != hi else self.lo % d, min(d - 1, self.hi) if lo != hi else self.hi % d)
            return q, r
        m = max(abs(self.lo), abs(self.hi))
        d = max(abs(o.lo), abs(o.hi))
        w = max(width_for(-m - 1, m + 1), width_for(-d, d)) + 1
        a, b = self.at(w), o.at(w)
        q0 = a / b  # signed, truncating
        r0 = z3.SRem(a, b)
        adj = z3.And(r0 != 0, (r0 < 0) != (b < 0))
        q = z3.If(adj, q0 - 1, q0)
        r = z3.If(adj, r0 + b, r0)
        return SymInt(q, -m - 1, m + 1), SymInt(r, -d, d)

    def __floordiv__(self, o):
        if not is_int(o):
            return _numf("__floordiv__", self, o)
        return self._divmod(o)[0]

    def __rfloordiv__(self, o):
        if not is_int(o):
            return _numf("__rfloordiv__", self, o)
        return sint(o)._divmod(self)[0]

    def __mod__(self, o):
        if not is_int(o):
            return _numf("__mod__", self, o)
        return self._divmod(o)[1]

    def __rmod__(self, o):
        if not is_int(o):
            return NotImplemented
        return sint(o)._divmod(self)[1]

    def __divmod__(self, o):
        if not is_int(o):
            return _numf("__divmod__", self, o)
        return self._divmod(o)

    def __rdivmod__(self, o):
        if not is_int(o):
            return NotImplemented
        return sint(o)._divmod(self)

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return SymFloat(self, 1) / o

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sfloat(o) / SymFloat(self, 1)

    def __pow__(self, o, mod=None):
        o = realise_int(o) if is_sym(o) else o
        if isinstance(o, int) and o >= 0 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(realise_int(self), o, mod) if mod is not None else realise_int(self) ** o

    def __rpow__(self, o):
        return o ** realise_int(self)

    # ---- bitwise
    def _bit(self, o, f):
        o = sint(o)
        w = max(width_for(self.lo, self.hi), width_for(o.lo, o.hi))
        return f(self.at(w), o.at(w)), w, o

    def __and__(self, o):
        if not is_int(o):
            return NotImplemented
        e, w, o = self._bit(o, lambda a, b: a & b)
        if self.lo >= 0 or o.lo >= 0:
            hi = min([x.hi for x in (self, o) if x.lo >= 0])
            return SymInt(e, 0, hi)
        return SymInt(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    __rand__ = __and__

    def __or__(self, o):
        if not is_int(o):
            return NotImplemented
        e, w, o = self._bit(o, lambda a, b: a | b)
        if self.lo >= 0 and o.lo >= 0:
            return SymInt(e, max(self.lo, o.lo), (1 << (w - 1)) - 1)
        return SymInt(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    __ror__ = __or__

    def __xor__(self, o):
        if not is_int(o):
            return NotImplemented
        e, w, o = self._bit(o, lambda a, b: a ^ b)
        lo = 0 if self.lo >= 0 and o.lo >= 0 else -(1 << (w - 1))
        return SymInt(e, lo, (1 << (w - 1)) - 1)

    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(~self.e, ~self.hi, ~self.lo)

    def __lshift__(self, o):
        o = realise_int(o) if is_sym(o) else o
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo << o, self.hi << o
        w = width_for(lo, hi)
        return SymInt(self.at(max(w, self.e.size())) << o, lo, hi)

    def __rlshift__(self, o):
        return o << realise_int(self)

    def __rshift__(self, o):
        o = realise_int(o) if is_sym(o) else o
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo >> o, self.hi >> o
        w = self.e.size()
        return SymInt(self.e >> min(o, w - 1), lo, hi)

    def __rrshift__(self, o):
        return o >> realise_int(self)

    # ---- comparison
    def _cmp(self, o, f, quick):
        if not is_int(o):
            if is_num(o):
                return None
            return NotImplemented
        o = sint(o)
        q = quick(self, o)
        if q is not None:
            return q
        w = max(width_for(self.lo, self.hi), width_for(o.lo, o.hi))
        return mkbool(f(self.at(w), o.at(w)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b,
                      lambda a, b: False if a.hi < b.lo or b.hi < a.lo else (True if a.e.eq(b.e) else None))
        return SymFloat(self, 1) == o if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b,
                      lambda a, b: True if a.hi < b.lo else (False if a.lo >= b.hi else None))
        return SymFloat(self, 1) < o if r is None else r

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else b_not(r)

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b,
                      lambda a, b: True if a.lo > b.hi else (False if a.hi <= b.lo else None))
        return SymFloat(self, 1) > o if r is None else r

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else b_not(r)

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return hash(realise_int(self))

    def __index__(self):
        return realise_int(self)

    __int__ = __index__

    def __float__(self):
        return float(realise_int(self))

    def __repr__(self):
        return str(realise_int(self))

    def __str__(self):
        return str(realise_int(self))

    def __format__(self, spec):
        return format(realise_int(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(realise_int(self), n)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        return realise_int(self).bit_length()

    def bit_count(self):
        return realise_int(self).bit_count()

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            return realise_int(self).to_bytes(length, byteorder, signed=signed)
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= (1 << (8 * length)):
            raise OverflowError("int too big to convert")
        w = 8 * length
        e = ext(self.e, max(w, self.e.size()))
        items = [mkch(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
        if byteorder == "big":
            items.reverse()
        return SymBytes(items)

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)


def is_int(o):
    return type(o) in (int, bool, SymInt, SymBool) or isinstance(o, int)


def is_num(o):
    return is_int(o) or type(o) in (float, SymFloat)


def _numf(name, a, o):
    if type(o) in (float, SymFloat):
        return getattr(SymFloat(a, 1), name)(o)
    return NotImplemented


def sint(x):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return SymInt(z3.If(x.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    x = int(x)
    w = width_for(x, x)
    return SymInt(z3.BitVecVal(x, w), x, x)


# ------------------------------------------------------------------------ floats
class SymFloat:
    """Exact rational num/den standing for a float read from the input."""
    __slots__ = ("num", "den")
    __sym__ = True

    def __init__(self, num, den):
        self.num = num
        self.den = den  # concrete positive int

    __class__ = property(lambda self: float)

    def _co(self, o):
        if not is_num(o):
            return None
        return sfloat(o)

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFloat(self.num * o.den + o.num * self.den, self.den * o.den)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFloat(self.num * o.den - o.num * self.den, self.den * o.den)

    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFloat(self.num * o.num, self.den * o.den)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if type(o.num) is int:
            if o.num == 0:
                raise ZeroDivisionError("float division by zero")
            s = 1 if o.num > 0 else -1
            return SymFloat(self.num * o.den * s, self.den * abs(o.num))
        return realise_float(self) / realise_float(o)

    def __rtruediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o / self

    def __floordiv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFloat((self.num * o.den) // (o.num * self.den), 1)

    def __mod__(self, o):
        return realise_float(self) % (realise_float(o) if is_sym(o) else o)

    def __neg__(self):
        return SymFloat(0 - self.num, self.den)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(abs(self.num), self.den)

    def __eq__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self.num * o.den == o.num * self.den

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self.num * o.den < o.num * self.den

    def __le__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self.num * o.den <= o.num * self.den

    def __gt__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self.num * o.den > o.num * self.den

    def __ge__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self.num * o.den >= o.num * self.den

    def __bool__(self):
        return bool(self.num != 0)

    def __hash__(self):
        return hash(realise_float(self))

    def __float__(self):
        return realise_float(self)

    def __int__(self):
        return int(realise_float(self))

    def __repr__(self):
        return repr(realise_float(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(realise_float(self), spec)

    def __round__(self, n=None):
        if n is None and self.den == 1:
            return self.num
        if self.den == 1 and n is not None and n >= 0:
            return self
        return round(realise_float(self), n) if n is not None else round(realise_float(self))

    def is_integer(self):
        return self.num % self.den == 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def sfloat(x):
    if type(x) is SymFloat:
        return x
    if type(x) in (SymInt, SymBool):
        return SymFloat(sint(x), 1)
    f = Fraction(x)
    return SymFloat(f.numerator, f.denominator)


# -------------------------------------------------------------------- characters
class Ch:
    """A symbolic character (see ctx.LATIN) or byte."""
    __slots__ = ("e", "cid", "mask")

    def __init__(self, e, cid=None, mask=FULL):
        self.e = e
        self.cid = cid
        self.mask = mask

    def poss(self):
        if self.cid is not None:
            return E.dom.get(self.cid, self.mask)
        return self.mask

    def refine(self, m):
        if self.cid is not None:
            E.dom[self.cid] = E.dom.get(self.cid, self.mask) & m
        else:
            self.mask &= m


def mkch(e, mask=FULL):
    if z3.is_bv_value(e):
        return e.as_long()
    return Ch(e, None, mask)


def norm(ch):
    """Collapse a character whose domain is a single value."""
    if type(ch) is Ch:
        p = ch.poss()
        if p and p & (p - 1) == 0:
            return p.bit_length() - 1
    return ch


def ch_in(ch, mask):
    if type(ch) is int:
        return bool((mask >> ch) & 1) if ch < 256 else False
    p = ch.poss()
    m = mask & p
    if m == 0:
        return False
    if m == p:
        return True
    r1 = mask_ranges(m)
    r2 = mask_ranges(p & ~m)
    neg = len(r2) < len(r1)
    rs = r2 if neg else r1
    t = []
    for lo, hi in rs:
        if lo == hi:
            t.append(ch.e == _b8[lo])
        elif lo == 0:
            t.append(z3.ULE(ch.e, _b8[hi]))
        elif hi == 255:
            t.append(z3.UGE(ch.e, _b8[lo]))
        else:
            t.append(z3.And(z3.UGE(ch.e, _b8[lo]), z3.ULE(ch.e, _b8[hi])))
    e = t[0] if len(t) == 1 else z3.Or(t)
    if neg:
        e = z3.Not(e)
    return SymBool(e, [(ch, mask)])


def ch_eq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        if b > 255:
            return False
        return ch_in(a, 1 << b)
    if a is b or a.e.eq(b.e):
        return True
    if not a.poss() & b.poss():
        return False
    return mkbool(a.e == b.e)


def ch_bv(ch):
    return ch.e if type(ch) is Ch else _b8[ch]


def ch_lt(a, b):
    """a < b by code point."""
    if type(a) is int and type(b) is int:
        return a < b
    if type(a) is int and a > 255:
        return False
    if type(b) is int and b > 255:
        return True
    return mkbool(z3.ULT(ch_bv(a), ch_bv(b)))


def ch_int(ch):
    if type(ch) is int:
        return ch
    p = ch.poss()
    if not p:
        raise PathAbort("empty domain")
    lo = (p & -p).bit_length() - 1
    hi = p.bit_length() - 1
    return SymInt(z3.ZeroExt(1, ch.e), lo, hi)


def ch_digitval(ch, base=10):
    """Value of a digit character (domain already within the base's digits)."""
    if type(ch) is int:
        return int(tchr(ch), base)
    p = ch.poss()
    e = z3.ZeroExt(1, ch.e)
    vals = [int(chr(v), base) for v in mask_vals(p & M_HEX)]
    lo, hi = (min(vals), max(vals)) if vals else (0, base - 1)
    if p & ~M_DIGIT == 0:
        return SymInt(e - 48, lo, hi)
    v = z3.If(z3.ULE(ch.e, _b8[57]), e - 48,
              z3.If(z3.ULE(ch.e, _b8[70]), e - 55, e - 87))
    return SymInt(v, lo, hi)


def ch_map(ch, fn):
    """Apply a code-point function to a symbolic character via its classes."""
    if type(ch) is int:
        return fn(ch)
    p = ch.poss()
    vals = mask_vals(p)
    deltas = {}
    for v in vals:
        deltas.setdefault(fn(v) - v, 0)
        deltas[fn(v) - v] |= 1 << v
    if list(deltas) == [0]:
        return ch
    nm = 0
    for d, m in deltas.items():
        for v in mask_vals(m):
            nm |= 1 << (v + d)
    items = sorted(deltas.items(), key=lambda x: -bin(x[1]).count("1"))
    e = ch.e + items[0][0]
    for d, m in items[1:]:
        c = ch_in(ch, m)
        e = z3.If(bz(c), ch.e + d, e)
    return mkch(e, nm)


# ------------------------------------------------------------------- realisation
def is_sym(x):
    return type(x) in SYM


def realise_int(x):
    if type(x) is SymBool:
        return int(bool(x))
    if type(x) is not SymInt:
        return int(x)
    if x.lo == x.hi:
        return x.lo
    while True:
        # choose a candidate deterministically from the current model
        v = _pick(x.e, True)
        if E.decide(x.e == z3.BitVecVal(v, x.e.size())):
            return v


def _pick(e, signed):
    """Candidate value; recorded through the trail so re-execution agrees."""
    p = E.pos
    v = None
    if p < len(E.trail):
        c = E.trail[p].cond
        v = E.const_of(c)
    elif p < len(E.prefix):
        v = E.prefix[p][1]
    else:
        v = E.cur_model().eval(e, model_completion=True).as_long()
    if v is None:
        raise RuntimeError("realisation out of step with the trail")
    if signed and v >> (e.size() - 1):
        v -= 1 << e.size()
    return v


def realise_ch(ch):
    if type(ch) is int:
        return ch
    while True:
        p = ch.poss()
        if p and p & (p - 1) == 0:
            return p.bit_length() - 1
        v = _pick(ch.e, False)
        if not (p >> v) & 1:
            raise RuntimeError("candidate outside domain")
        if E.decide(ch.e == _b8[v]):
            ch.refine(1 << v)
            return v
        ch.refine(FULL & ~(1 << v))


def realise_float(x):
    if type(x) is SymFloat:
        n = realise_int(x.num) if is_sym(x.num) else x.num
        return n / x.den
    return float(x)


def realise(x):
    t = type(x)
    if t is SymStr:
        return "".join(tchr(realise_ch(c)) for c in x.c)
    if t is SymBytes:
        b = bytes(realise_ch(c) for c in x.c)
        return bytearray(b) if x.mut else b
    if t is SymInt:
        return realise_int(x)
    if t is SymBool:
        return bool(x)
    if t is SymFloat:
        return realise_float(x)
    if t is list:
        return [realise(i) for i in x]
    if t is tuple:
        return tuple(realise(i) for i in x)
    if t is dict:
        return {realise(k): realise(v) for k, v in x.items()}
    return x


from .strings import SymStr, SymBytes  # noqa: E402

SYM = frozenset({SymBool, SymInt, SymFloat, SymStr, SymBytes})
