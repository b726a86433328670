"""Call interception: models of builtins and library functions for symbolic
arguments; anything without a model gets its arguments realised (the solver
enumerates their values), so no operation is ever silently skipped."""
import asyncio
import builtins
import copy
import enum
import functools
import hashlib
import hmac as _hmac
import itertools
import logging
import math
import operator
import re
import secrets
import types
import z3

from .core import E
from . import values as V
from . import regex as R
from .strings import SymStr, SymBytes, PROBE, SYMKEY, hexch
from .values import SymBool, SymInt, SymFloat, SYM, is_sym, realise

ENTERED = set()
CACHES = []


def sx_enter(q):
    ENTERED.add(q)
    if E.active:
        E.tick()


def sx_tick():
    if E.active:
        E.tick()


# ------------------------------------------------------------------- utilities
def has_sym(a, k):
    for x in a:
        if type(x) in SYM:
            return True
    for x in k.values():
        if type(x) in SYM:
            return True
    return False


def deep_sym(x, d=3):
    t = type(x)
    if t in SYM:
        return True
    if d and t in (list, tuple, set, frozenset):
        return any(deep_sym(i, d - 1) for i in x)
    if d and t is dict:
        return any(deep_sym(i, d - 1) or deep_sym(j, d - 1) for i, j in x.items())
    return False


def sym_key(k):
    """Does hashing this key depend on symbolic content?"""
    t = type(k)
    if t in (str, int, bool, type(None), float):
        return False
    if t in (SymStr, SymBytes, SymInt, SymBool, SymFloat):
        return True
    PROBE.on, PROBE.hit = True, False
    try:
        hash(k)
    except TypeError:
        return False
    finally:
        PROBE.on = False
    return PROBE.hit


# make ints/bools/floats participate in key probing
def _num_hash(orig):
    def h(self):
        if PROBE.on:
            PROBE.hit = True
            return 0
        if SYMKEY.on:
            return 0
        return orig(self)
    return h


for _c in (SymInt, SymBool, SymFloat):
    _c.__hash__ = _num_hash(_c.__hash__)


def symbolic_lookup(d, k):
    return sym_key(k) or any(sym_key(x) for x in d)


_MISS = object()


def d_find(d, k):
    """Existing key equal to k, deciding equality by branching."""
    for x in list(d.keys()):
        if x is k or truth(x == k):
            return x
    return _MISS


def d_raw(d, key):
    """value stored under the very key object ``key``"""
    for x, v in d.items():
        if x is key:
            return v
    raise KeyError(key)


def truth(x):
    return bool(x)


def d_store(d, k, v):
    x = d_find(d, k)
    if x is _MISS:
        _put(d, k, v)
    else:
        _rebuild(d, [(a, v if a is x else b) for a, b in d.items()])


def d_remove(d, x):
    _rebuild(d, [(a, b) for a, b in d.items() if a is not x])


def _put(d, k, v):
    # symbolic keys hash to a constant and compare by identity while stored
    SYMKEY.on = NEQ.on = True
    try:
        dict.__setitem__(d, k, v)
    finally:
        SYMKEY.on = NEQ.on = False


def _rebuild(d, items):
    SYMKEY.on = NEQ.on = True
    try:
        dict.clear(d)
        for a, b in items:
            dict.__setitem__(d, a, b)
    finally:
        SYMKEY.on = NEQ.on = False


class _F:
    on = False


NEQ = _F()


# native dict insertion of colliding symbolic keys calls __eq__; answer False
def _guard_eq(cls):
    orig = cls.__eq__

    def eq(self, o):
        if NEQ.on:
            return self is o
        return orig(self, o)
    cls.__eq__ = eq


for _c in (SymStr, SymBytes, SymInt, SymBool, SymFloat):
    _h = _c.__hash__
    _guard_eq(_c)
    _c.__hash__ = _h


# -------------------------------------------------------------------- formatting
def sx_str(x="", *a):
    t = type(x)
    if t is str:
        return x
    if t is SymStr:
        return x
    if t is SymInt:
        return int_str(x)
    if t is SymBool:
        return "True" if x else "False"
    if t is SymBytes and a:
        return x.decode(*a)
    if t in SYM:
        return str(realise(x))
    if a:
        return str(x, *[realise(i) for i in a])
    f = t.__str__
    if isinstance(f, types.FunctionType):
        r = f(x)
        if type(r) is SymStr or isinstance(r, str):
            return r
        raise TypeError(f"__str__ returned non-string (type {r.__class__.__name__})")
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return sx_str(x.args[0])
        if not deep_sym(x.args):
            return str(x)
        return sx_repr(x.args)
    if f is object.__str__:
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        if x._all(V.M_FRAME) or not x.c:
            return SymStr([39] + x.c + [39])
        return repr(realise(x))
    if t is SymInt:
        return int_str(x)
    if t in SYM:
        return repr(realise(x))
    if t in (list, tuple):
        parts = [sx_repr(i) for i in x]
        if t is list:
            return s_concat(["[", s_join(", ", parts), "]"])
        return s_concat(["(", s_join(", ", parts), ",)" if len(parts) == 1 else ")"])
    if t is dict:
        return s_concat(["{", s_join(", ", [s_concat([sx_repr(k), ": ", sx_repr(v)]) for k, v in x.items()]), "}"])
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        import dataclasses
        if dataclasses.is_dataclass(x) and "__create_fn__" in getattr(f, "__qualname__", "") or getattr(f, "__wrapped__", None) is not None and dataclasses.is_dataclass(x):
            return s_concat([t.__qualname__, "(", s_join(", ", [
                s_concat([fl.name, "=", sx_repr(getattr(x, fl.name))]) for fl in dataclasses.fields(x)]), ")"])
        return f(x)
    return repr(x)


def s_concat(parts):
    if all(type(p) is str for p in parts):
        return "".join(parts)
    return SymStr([]).join(parts)


def s_join(sep, parts):
    return SymStr.lift(sep).join(parts)


def int_str(x):
    """Decimal text of a symbolic integer; branches on sign and digit count."""
    if type(x) is SymBool:
        x = V.sint(x)
    if x.lo == x.hi:
        return str(x.lo)
    if x.prov is not None:
        c = x.prov
        i = 0
        while i < len(c) - 1 and V.ch_in(c[i], 1 << 48):
            i += 1
        return SymStr(c).mk(c[i:])
    if not E.decs or x.hi < 10:
        return _int_str(x)
    for y, out in E.decs:
        if y.lo <= x.hi and x.lo <= y.hi:
            same = x == y
            if same is True or type(same) is SymBool and E.entails(same.e):
                return out
    return _int_str(x)


def _int_str(x):
    x0 = x
    neg = False
    if x.lo < 0:
        if x < 0:
            neg = True
            x = SymInt((-x).e, max(1, -x.hi), -x.lo)
        else:
            x = SymInt(x.e, 0, x.hi)
    k = len(str(max(x.lo, 0)))
    top = len(str(x.hi))
    while k < top and not (x < 10 ** k):
        k += 1
    lo = 0 if k == 1 else 10 ** (k - 1)
    hi = 10 ** k - 1
    if k == 1:
        e = V.ext(x.e, max(8, x.e.size()))
        ch = V.mkch(z3.Extract(7, 0, e) + 48, V.M_DIGIT)
        out = [ch]
    else:
        w = max(V.width_for(0, hi), x.e.size())
        out = []
        acc = z3.BitVecVal(0, w)
        for i in range(k):
            nm = E.fresh_name("dg")
            v = z3.BitVec(nm, 8)
            lo_d = 49 if i == 0 else 48
            E.define(z3.And(z3.UGE(v, lo_d), z3.ULE(v, 57)))
            ch = V.Ch(v, nm, V.M_DIGIT & ~(1 << 48 if i == 0 else 0))
            out.append(ch)
            acc = acc * 10 + (z3.ZeroExt(w - 8, v) - 48 if w > 8 else z3.Extract(w - 1, 0, v - 48))
        E.define(acc == V.ext(x.e, w))
    if neg:
        out = [45] + out
    out = SymStr(out).mk(out)
    if x0.hi >= 10:
        E.decs.append((x0, out))
    return out


def padded(x, k):
    """Exactly k decimal digits of 0 <= x < 10**k: no branching."""
    if x.hi < 20:
        v = z3.Extract(7, 0, V.ext(x.e, max(8, x.e.size())))
        ten = z3.UGE(v, 10)
        ones = V.mkch(z3.If(ten, v - 10, v) + 48, V.M_DIGIT if x.hi > 8 else sum(1 << c for c in range(48, 49 + x.hi)))
        tens = 48 if x.hi < 10 else V.mkch(z3.If(ten, z3.BitVecVal(49, 8), z3.BitVecVal(48, 8)), 3 << 48)
        out = [48] * (k - 2) + ([tens, ones] if k > 1 else [ones])
        return SymStr(out).mk(out)
    for y, w, out in E.pads:
        if w == k and y.lo <= x.hi and x.lo <= y.hi:
            same = x == y
            if same is True or type(same) is SymBool and E.entails(same.e):
                return out
    w = max(V.width_for(0, 10 ** k - 1), x.e.size())
    out = []
    acc = z3.BitVecVal(0, w)
    for i in range(k):
        top = x.hi // 10 ** (k - 1 - i)
        if top == 0:
            out.append(48)
            continue
        nm = E.fresh_name("dg")
        v = z3.BitVec(nm, 8)
        last = 48 + min(9, top)
        E.define(z3.And(z3.UGE(v, 48), z3.ULE(v, last)))
        out.append(V.Ch(v, nm, sum(1 << c for c in range(48, last + 1))))
        acc = acc * 10 + (z3.ZeroExt(w - 8, v) - 48 if w > 8 else z3.Extract(w - 1, 0, v - 48))
    E.define(acc == V.ext(x.e, w))
    r = SymStr(out).mk(out)
    E.pads.append((x, k, r))
    return r


def sx_strpad(f, x, w, fill=None):
    """str(x).zfill(w) or str(x).rjust(w, fill)"""
    if f is str and type(x) is SymInt and type(w) is int and 0 < w <= 8 and fill in (None, "0") \
            and x.lo >= 0 and x.lo != x.hi and x.hi < 10 ** w and x.prov is None:
        return padded(x, w)
    s = sx_call(f, x)
    return sx_call(s.zfill, w) if fill is None else sx_call(s.rjust, w, fill)


def sx_format(x, spec=""):
    if type(spec) is SymStr:
        spec = realise(spec)
    t = type(x)
    if t not in SYM:
        f = t.__format__
        if spec == "" and f is object.__format__:
            return sx_str(x)
        if isinstance(x, enum.Enum) and spec == "":
            return sx_str(x)
        if isinstance(f, types.FunctionType) and f is not enum.Enum.__format__:
            return f(x, spec)
        if t in (list, tuple, dict) and spec == "":
            return sx_repr(x)
        if isinstance(x, BaseException) and spec == "":
            return sx_str(x)
        return format(x, spec)
    if spec == "":
        return sx_str(x)
    m = re.fullmatch(r"(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?(,|_)?(?:\.(\d+))?([a-zA-Z%])?", spec)
    if m is None:
        return format(realise(x), spec)
    fill, align, sign, alt, zero, width, group, prec, ty = m.groups()
    width = int(width or 0)
    if t is SymStr and ty in (None, "s") and not (sign or alt or group):
        body = x if prec is None else x[:int(prec)]
        fill = fill or ("0" if zero else " ")
        align = align or "<"
        if align == "<":
            return body.ljust(width, fill) if isinstance(body, SymStr) else str(body).ljust(width, fill)
        if align == ">":
            return SymStr.lift(body).rjust(width, fill)
        return format(realise(x), spec)
    if t in (SymInt, SymBool) and ty in (None, "d", "x", "X", "b", "o") and not (group or prec or alt) and sign in (None, "-"):
        xi = V.sint(x)
        if zero and align is None and xi.lo >= 0 and xi.lo != xi.hi and width <= 8:
            if ty in ("x", "X", "b") and xi.hi < (16 if ty != "b" else 2) ** width:
                bits = 1 if ty == "b" else 4
                e = V.ext(xi.e, max(8, bits * width, xi.e.size()))
                out = [hexch(z3.Extract(7, 0, z3.LShR(e, bits * i)) & ((1 << bits) - 1)) for i in range(width - 1, -1, -1)]
                r = SymStr(out)
                return r.upper() if ty == "X" else r.mk(out)
            if ty in (None, "d") and xi.hi < 10 ** width and xi.prov is None:
                return padded(xi, width)
        if ty in ("x", "X", "b", "o"):
            body = int_base(xi, {"x": 16, "X": 16, "b": 2, "o": 8}[ty], ty == "X")
        else:
            body = int_str(xi)
        body = SymStr.lift(body)
        neg = bool(body.c) and body.c[0] == 45 and type(body.c[0]) is int
        if zero and align is None:
            return body.zfill(width)
        fill = fill or ("0" if zero else " ")
        align = align or ">"
        if align == ">":
            return body.rjust(width, fill)
        if align == "<":
            return body.ljust(width, fill)
        if align == "=":
            d = body.c[1:] if neg else body.c
            pad = [ord(fill)] * max(0, width - len(body.c))
            return body.mk(([45] if neg else []) + pad + d)
        return format(realise(x), spec)
    if t is SymFloat and x.den == 1 and ty == "f" and prec == "0" and not (align or sign or alt or group):
        return sx_format(x.num, f"{zero or ''}{width or ''}d")
    return format(realise(x), spec)


def int_base(x, base, upper=False):
    if x.lo < 0 and x < 0:
        return SymStr([45]) + SymStr.lift(int_base(SymInt((-x).e, 1, -x.lo), base, upper))
    bits = {16: 4, 2: 1, 8: 3}[base]
    k, top = 1, max(1, (max(x.hi, 1).bit_length() + bits - 1) // bits)
    while k < top and not (x < (1 << (bits * k))):
        k += 1
    w = max(8, bits * k, x.e.size())
    e = V.ext(x.e, w)
    out = []
    for i in range(k - 1, -1, -1):
        nib = z3.Extract(7, 0, z3.LShR(e, bits * i)) & ((1 << bits) - 1)
        out.append(hexch(nib))
    s = SymStr(out)
    return s.upper() if upper else s.mk(out)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            if conv == 115:
                v = sx_str(v)
            elif conv == 114:
                v = sx_repr(v)
            elif conv == 97:
                v = ascii(realise(v))
            out.append(sx_format(v, spec))
    return s_concat([o if type(o) in (str, SymStr) else str(o) for o in out])


def sx_mod(a, b):
    if type(a) is str or type(a) is SymStr:
        if not deep_sym(b, 2) and type(a) is str and not _contains_sym_obj(b):
            return a % b
        a = realise(a)
        if type(b) is dict:
            return a % {k: realise(v) for k, v in b.items()}
        args = list(b) if type(b) is tuple else [b]
        out, i, n = [], 0, 0
        while i < len(a):
            if a[i] != "%":
                j = a.find("%", i)
                j = len(a) if j < 0 else j
                out.append(a[i:j])
                i = j
                continue
            m = re.compile(r"%([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])").match(a, i)
            if m is None:
                return a % realise(b)
            if m.group(4) == "%":
                out.append("%")
            else:
                if n >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[n]
                n += 1
                fl, wd, pr, ty = m.groups()
                if ty == "s":
                    s = SymStr.lift(sx_str(v))
                    out.append(s.rjust(int(wd or 0)) if "-" not in fl else s.ljust(int(wd or 0)))
                elif ty == "r":
                    out.append(sx_repr(v))
                elif ty in "di" and not pr and not set(fl) & set("+ -"):
                    if not V.is_num(v):
                        raise TypeError("%d format: a real number is required")
                    if type(v) in (float, SymFloat):
                        v = sx_int(v)
                    out.append(sx_format(v, ("0" if "0" in fl else "") + (wd or "") + "d"))
                elif ty in "xX" and not pr and not set(fl) & set("+ -#"):
                    out.append(sx_format(v, ("0" if "0" in fl else "") + (wd or "") + ty))
                else:
                    out.append(m.group(0) % realise(v))
            i = m.end()
        if n < len(args) and type(b) is tuple:
            raise TypeError("not all arguments converted during string formatting")
        return s_concat([o if type(o) in (str, SymStr) else str(o) for o in out])
    return a % b


def _contains_sym_obj(b):
    # objects whose text may be symbolic
    for x in (b if type(b) is tuple else (b,)):
        if type(x).__module__.split(".")[0] in INSTRUMENTED:
            return True
        if isinstance(x, BaseException):
            return True
    return False


INSTRUMENTED = set()


# -------------------------------------------------------------------- operators
def sx_not(x):
    if type(x) is SymBool:
        return x.not_()
    if type(x) is GSet:
        return sx_not(x.nonempty())
    return not x


def sx_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return a == b
    if type(b) is SymBool and (a is True or a is False):
        return b == a
    return a is b


def sx_in(a, b):
    t = type(b)
    if t in (str, bytes, bytearray):
        if type(a) in SYM:
            c = SymStr if t is str else SymBytes
            if t is str and type(a) is SymStr and len(a.c) == 1:
                ch = a.c[0]
                return V.ch_in(ch, V.mask_of(b)) if type(ch) is V.Ch else (V.tchr(ch) in b)
            return c.lift(b).contains(a)
        return a in b
    if t is SymStr or t is SymBytes:
        return b.contains(a)
    if t is range and type(a) is SymInt:
        if not len(b):
            return False
        lo, hi = min(b[0], b[-1]), max(b[0], b[-1])
        c = [a >= lo, a <= hi]
        if abs(b.step) != 1:
            c.append((a - b.start) % abs(b.step) == 0)
        return V.b_and(c)
    if t in (list, tuple) or isinstance(b, (type({}.keys()), type({}.values()))):
        if isinstance(b, type({}.keys())):
            b = list(b)
        out = []
        for x in b:
            if x is a:
                return True
            r = x == a
            if type(r) is SymBool:
                out.append(r)
            elif r:
                out.append(True)
                break
        return V.b_or(out)
    if isinstance(b, dict):
        if symbolic_lookup(b, a):
            return V.b_or([_eqb(x, a) for x in b.keys()])
        return a in b
    if t is GSet:
        return b.contains(a)
    if isinstance(b, (set, frozenset)):
        if sym_key(a) or any(sym_key(x) for x in b):
            return V.b_or([_eqb(x, a) for x in sorted(b, key=_stable)])
        return a in b
    if isinstance(b, enum.EnumMeta):
        if type(a) in SYM:
            return V.b_or([_eqb(m.value, a) for m in b])
        return a in b
    return a in b


def _stable(x):
    return (type(x).__name__, repr(x) if not deep_sym(x) else "")


def _eqb(x, a):
    if x is a:
        return True
    r = x == a
    return r if type(r) is SymBool else bool(r)


def sx_getitem(o, k):
    if isinstance(o, dict) and type(k) not in (str, int, bool) and type(o).__getitem__ is dict.__getitem__:
        if symbolic_lookup(o, k):
            x = d_find(o, k)
            if x is _MISS:
                if hasattr(type(o), "__missing__"):
                    v = o.default_factory() if getattr(o, "default_factory", None) else _raise(KeyError(k))
                    d_store(o, k, v)
                    return v
                raise KeyError(k)
            return d_raw(o, x)
    elif isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__ and len(o) < 64 and any(sym_key(x) for x in o):
        x = d_find(o, k)
        if x is _MISS:
            raise KeyError(k)
        return d_raw(o, x)
    elif isinstance(o, enum.EnumMeta) and type(k) is SymStr:
        for n in o.__members__:
            if k == n:
                return o.__members__[n]
        raise KeyError(k)
    elif type(o) in (list, tuple) and type(k) is SymInt and 1 < len(o) <= 64 and all(type(x) is int for x in o):
        n = len(o)
        if k.lo < -n and k < -n or k.hi >= n and k >= n:
            raise IndexError("index out of range")
        lo, hi = min(o), max(o)
        w = V.width_for(lo, hi)
        idx = [i for i in range(-n, n) if k.lo <= i <= k.hi]
        e = z3.BitVecVal(o[idx[-1]], w)
        for i in idx[:-1]:
            c = k == i
            if c is not False:
                e = z3.If(V.bz(c), z3.BitVecVal(o[i], w), e)
        return SymInt(e, lo, hi)
    return o[k]


def _raise(e):
    raise e


def sx_setitem(o, k, v):
    if isinstance(o, dict) and symbolic_lookup(o, k):
        d_store(o, k, v)
    elif type(o) is bytearray and type(v) in SYM:
        o[k] = realise(v)
    else:
        o[k] = v


def sx_delitem(o, k):
    if isinstance(o, dict) and symbolic_lookup(o, k):
        x = d_find(o, k)
        if x is _MISS:
            raise KeyError(k)
        d_remove(o, x)
    else:
        del o[k]


def dict_method(o, name, a, k):
    if name == "get":
        x = d_find(o, a[0])
        return d_raw(o, x) if x is not _MISS else (a[1] if len(a) > 1 else None)
    if name == "setdefault":
        x = d_find(o, a[0])
        if x is not _MISS:
            return d_raw(o, x)
        v = a[1] if len(a) > 1 else None
        d_store(o, a[0], v)
        return v
    if name == "pop":
        x = d_find(o, a[0])
        if x is _MISS:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        v = d_raw(o, x)
        d_remove(o, x)
        return v
    if name == "__contains__":
        return sx_in(a[0], o)
    if name == "__getitem__":
        return sx_getitem(o, a[0])
    if name == "__setitem__":
        return sx_setitem(o, *a)
    raise KeyError(name)


# ------------------------------------------------------------------- conversions
_M_SIGN = V.mask_of("+-")
_M_US = 1 << ord("_")


def _digit_mask(base):
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    return V.mask_of(ds + ds.upper())


_M_UDEC = V.mask_of([i for i in V.ALIAS if V.TCHR[i].isdecimal()])


def _ascii_digits(s):
    """decimal digits of other scripts count as the digit they are"""
    if type(s) is not SymStr:
        return s.c
    return [ord(str(int(V.tchr(V.realise_ch(ch))))) if (type(ch) is int and ch > 255 and V.tchr(ch).isdecimal()) or V.ch_in(ch, _M_UDEC)
            else ch for ch in s.c]


def parse_int(s, base=10):
    c = _ascii_digits(s)
    dm = _digit_mask(base)
    allok = bool(c) and V.b_and([V.ch_in(ch, dm) for ch in c])
    if allok is not False and (allok is True or allok):
        pass
    else:
        # general grammar: whitespace, sign, prefix, underscores
        i, j = 0, len(c)
        ws = V.M_SPACE
        while i < j and V.ch_in(c[i], ws):
            i += 1
        while j > i and V.ch_in(c[j - 1], ws):
            j -= 1
        neg = False
        if i < j and V.ch_in(c[i], _M_SIGN):
            neg = bool(V.ch_in(c[i], 1 << 45))
            i += 1
        if base in (16, 8, 2) and j - i >= 2 and V.ch_in(c[i], 1 << 48) and \
                V.ch_in(c[i + 1], V.mask_of({16: "xX", 8: "oO", 2: "bB"}[base])):
            i += 2
            if i < j and V.ch_in(c[i], _M_US):
                i += 1
        out = []
        last_us = True
        ok = i < j
        for ch in c[i:j]:
            if V.ch_in(ch, dm):
                out.append(ch)
                last_us = False
            elif not last_us and V.ch_in(ch, _M_US):
                last_us = True
            else:
                ok = False
                break
        if not ok or last_us:
            raise ValueError(f"invalid literal for int() with base {base}")
        v = parse_int(SymStr(out), base)
        return -v if neg else v
    acc = 0
    for ch in c:
        acc = acc * base + V.ch_digitval(ch, base)
    if type(acc) is SymInt and base == 10:
        acc.prov = V_norm(c)
    return acc


def V_norm(c):
    return [V.norm(x) for x in c]


def sx_int(x=0, base=None):
    t = type(x)
    if base is not None:
        base = realise(base)
    if t is SymStr or t is SymBytes:
        return parse_int(SymStr(x.c), 10 if base is None else base)
    if t is SymInt:
        return x
    if t is SymBool:
        return V.sint(x)
    if t is SymFloat:
        n = x.num
        if x.den == 1:
            return n
        return n // x.den if not (n < 0) else -((-n) // x.den)
    if t not in SYM and isinstance(getattr(t, "__int__", None), types.FunctionType):
        return t.__int__(x)
    return int(x) if base is None else int(x, base)


def sx_float(x=0.0):
    t = type(x)
    if t is SymStr:
        if x.c and V.b_and([V.ch_in(ch, V.M_DIGIT) for ch in x.c]):
            v = parse_int(x)
            return SymFloat(v, 1) if is_sym(v) else float(v)
        # digits '.' digits
        if x.c and V.b_and([V.ch_in(ch, V.M_DIGIT | (1 << 46)) for ch in x.c]):
            parts = x.split(".")
            if len(parts) == 2 and (len(parts[0]) or len(parts[1])):
                a, b = parts
                v = sx_int(s_concat([a, b]))
                d = 10 ** len(b)
                return SymFloat(v, d) if is_sym(v) else v / d
            raise ValueError("could not convert string to float")
        # anything else made only of tag characters is not a number
        if not x.c or V.b_or([V.ch_in(ch, V.mask_of("#*")) for ch in x.c]):
            raise ValueError("could not convert string to float")
        return float(realise(x))
    if t in (SymInt, SymBool):
        return SymFloat(V.sint(x), 1)
    if t is SymFloat:
        return x
    return float(x)


def sx_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt or t is SymFloat:
        return x != 0
    if t in SYM:
        return len(x) > 0
    if t is GSet:
        return x.nonempty()
    return bool(x)


def sx_len(x):
    t = type(x)
    if t in (SymStr, SymBytes):
        return len(x.c)
    return len(x)


def sx_all(it):
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return V.b_and(acc)
        except Exception:
            if acc and not truth(V.b_and(acc)):
                return False
            raise
        if type(x) is SymBool:
            acc.append(x)
        elif type(x) in SYM:
            acc.append(sx_bool(x))
        elif not x:
            return False
        if acc and acc[-1] is False:
            return False


def sx_any(it):
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return V.b_or(acc)
        except Exception:
            if acc and truth(V.b_or(acc)):
                return True
            raise
        if type(x) is SymBool:
            acc.append(x)
        elif type(x) in SYM:
            acc.append(sx_bool(x))
        elif x:
            return True
        if acc and acc[-1] is True:
            return True


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_minmax(which, a, k):
    key = k.pop("key", None)
    if len(a) == 1:
        items = list(a[0])
    else:
        items = list(a)
    if not items:
        if "default" in k:
            return k["default"]
        raise ValueError(f"{which}() arg is an empty sequence")
    best = items[0]
    kb = sx_call(key, best) if key else best
    for x in items[1:]:
        kx = sx_call(key, x) if key else x
        if (kx < kb) if which == "min" else (kx > kb):
            best, kb = x, kx
    return best


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return a[0].__class__ if t in SYM or t is R.SymMatch else t
    return type(*a)


def sx_ord(x):
    if type(x) in (SymStr, SymBytes):
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        ch = x.c[0]
        if type(x) is SymStr:
            if type(ch) is int:
                return ord(V.tchr(ch))
            if V.ch_in(ch, V.M_ALIAS):
                return ord(V.tchr(V.realise_ch(ch)))
        return V.ch_int(ch)
    return ord(x)


def sx_chr(x):
    if type(x) is SymInt:
        if x.lo >= 0 and x.hi < 256 and (x.hi < 0x86 or x.lo > 0x8f or not sx_in(x, range(0x86, 0x90))):
            e = V.ext(x.e, max(9, x.e.size()))
            m = 0
            for v in range(x.lo, x.hi + 1):
                m |= 1 << v
            return SymStr([V.mkch(z3.Extract(7, 0, e), m)])
        return chr(realise(x))
    return chr(x)


def sx_hex(x):
    if type(x) in (SymInt, SymBool):
        x = V.sint(x)
        if x.lo < 0 and x < 0:
            return s_concat(["-0x", int_base(SymInt((-x).e, 1, -x.lo), 16)])
        return s_concat(["0x", int_base(x, 16)])
    return hex(x)


def sx_bin(x):
    if type(x) in (SymInt, SymBool):
        x = V.sint(x)
        if x.lo < 0 and x < 0:
            return s_concat(["-0b", int_base(SymInt((-x).e, 1, -x.lo), 2)])
        return s_concat(["0b", int_base(x, 2)])
    return bin(x)


def sx_divmod(a, b):
    return divmod(a, b)


def sx_map(f, *its):
    for xs in zip(*its):
        yield sx_call(f, *xs)


def sx_filter(f, it):
    for x in it:
        if (truth(x) if f is None else truth(sx_call(f, x))):
            yield x


def sx_sorted(it, *, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda x: sx_call(key, x), reverse=reverse)


def sx_bytes(*a, **k):
    if a and type(a[0]) in (list, tuple) and deep_sym(a[0]):
        out = []
        for x in a[0]:
            if type(x) is SymInt:
                if not sx_in(x, range(256)):
                    raise ValueError("bytes must be in range(0, 256)")
                out.append(V.mkch(z3.Extract(7, 0, V.ext(x.e, max(8, x.e.size())))))
            else:
                out.append(x)
        return SymBytes(out)
    if a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **k)
    if a and type(a[0]) is SymBytes:
        return SymBytes(a[0].c)
    return bytes(*[realise(x) for x in a], **k)


def sx_bytearray(*a, **k):
    if not a:
        return SymBytes([], True)
    b = sx_bytes(*a, **k)
    return SymBytes(SymBytes.lift(b).c, True)


def sx_fromhex(s):
    if type(s) is SymStr:
        s = s.replace(" ", "") if not s._all(V.M_HEX) else s
        s = SymStr.lift(s)
        ok = V.b_and([V.ch_in(ch, V.M_HEX) for ch in s.c])
        if not ok or len(s.c) % 2:
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        out = []
        for i in range(0, len(s.c), 2):
            a, b = V.ch_digitval(s.c[i], 16), V.ch_digitval(s.c[i + 1], 16)
            v = a * 16 + b
            if is_sym(v):
                out.append(V.mkch(z3.Extract(7, 0, V.ext(v.e, max(9, v.e.size())))))
            else:
                out.append(v)
        return SymBytes(out).mk(out)
    return bytes.fromhex(s)


def sx_int_from_bytes(b, byteorder="big", *, signed=False):
    if type(b) is SymBytes and not signed:
        cs = b.c if byteorder == "big" else b.c[::-1]
        acc = 0
        for ch in cs:
            acc = acc * 256 + V.ch_int(ch)
        return acc
    if not isinstance(b, (bytes, bytearray, memoryview, SymBytes)) and not signed:
        cs = list(b)
        if any(type(x) is SymInt for x in cs):
            if byteorder != "big":
                cs.reverse()
            acc = 0
            for x in cs:
                if x < 0 or x > 255:
                    raise ValueError("bytes must be in range(0, 256)")
                acc = acc * 256 + x
            return acc
        b = cs
    return int.from_bytes(realise(b), byteorder, signed=signed)


def sx_isinstance(x, t):
    return isinstance(x, t)


class LazyText:
    """text of an error, built (and branched on) only if somebody reads it"""

    def __init__(self, f):
        self.f = f

    def __str__(self):
        return self.f()

    def __repr__(self):
        return sx_repr(self.f())


def sx_enum(cls, v):
    for m in cls:
        mv = m._value_
        if truth(_eqb(mv, v)):
            return m
    # aliases share values; then the _missing_ hook, as EnumType does
    r = cls._missing_(v)
    if isinstance(r, cls):
        return r
    if type(v) is SymStr and not v._all(V.M_FRAME):
        raise ValueError(LazyText(lambda: s_concat([sx_repr(v), f" is not a valid {cls.__qualname__}"])))
    raise ValueError(s_concat([sx_repr(v), f" is not a valid {cls.__qualname__}"]))


# ------------------------------------------------------------- hash abstraction
class SymHash:
    """hashlib object over symbolic data: an ideal (collision-free) function."""

    def __init__(self, name, data=b"", key=None):
        self.name = name
        self.key = key
        self.data = SymBytes.lift(data)

    @property
    def digest_size(self):
        return hashlib.new(self.name).digest_size

    @property
    def block_size(self):
        return hashlib.new(self.name).block_size

    def update(self, d):
        self.data = SymBytes(self.data.c + SymBytes.lift(d).c)

    def copy(self):
        return SymHash(self.name, self.data, self.key)

    def digest(self):
        return ideal(self.name, self.key, self.data)

    def hexdigest(self):
        d = self.digest()
        return d.hex()


def ideal(name, key, data):
    kc = None if key is None else V_norm(SymBytes.lift(key).c)
    dc = V_norm(data.c)
    if all(type(x) is int for x in dc) and (kc is None or all(type(x) is int for x in kc)):
        if kc is None:
            out = hashlib.new(name, bytes(dc)).digest()
        else:
            out = _hmac.HMAC(bytes(kc), bytes(dc), name).digest()
        rec = (name, kc, dc, SymBytes.lift(out))
    else:
        n = hashlib.new(name).digest_size
        items = []
        for i in range(n):
            nm = E.fresh_name("h")
            items.append(V.Ch(z3.BitVec(nm, 8), nm))
        rec = (name, kc, dc, SymBytes(items))
    for (n2, k2, d2, o2) in E.hashes:
        if len(o2.c) != len(rec[3].c):
            continue
        same = n2 == name and (kc is None) == (k2 is None) and len(d2) == len(dc) and \
            (kc is None or len(kc) == len(k2))
        eq_out = rec[3].eq(o2)
        if same:
            conds = [V.ch_eq(a, b) for a, b in zip(dc, d2)]
            if kc is not None:
                conds += [V.ch_eq(a, b) for a, b in zip(kc, k2)]
            eq_in = V.b_and(conds)
        else:
            eq_in = False
        if eq_in is True:
            return o2.mk(o2.c)
        f = V.bz(eq_in) == V.bz(eq_out)
        if not z3.is_true(z3.simplify(f)):
            E.define(f)
    E.hashes.append(rec)
    return rec[3].mk(rec[3].c)


def sx_hash(name):
    def mk(data=b"", **k):
        return SymHash(name, data)
    return mk


def sx_hmac(key, msg=None, digestmod=""):
    name = digestmod if isinstance(digestmod, str) else getattr(digestmod, "__name__", "").replace("openssl_", "")
    if name in ("mk",):
        name = digestmod().name
    return SymHash(name, msg if msg is not None else b"", key)


def sx_hmac_digest(key, msg, digest):
    return sx_hmac(key, msg, digest).digest()


def sx_compare_digest(a, b):
    la = SymStr.lift(a) or SymBytes.lift(a)
    lb = SymStr.lift(b) or SymBytes.lift(b)
    if la is None or lb is None or type(la) is not type(lb):
        raise TypeError("unsupported operand types(s) or combination of types")
    return la.eq(lb)


RANDOM = {"n": 0, "source": None}


def sx_token_bytes(n=32):
    src = RANDOM["source"]
    if src is None:
        return secrets.token_bytes(n)
    return src(n)


class SxCache:
    def __init__(self, f):
        self.f = f
        self.items = []
        CACHES.append(self)
        functools.update_wrapper(self, f)

    def __call__(self, *a, **k):
        for (a2, k2, r) in self.items:
            if len(a2) == len(a) and k2.keys() == k.keys() and truth(a2 == a) and \
                    all(truth(_eqb(k2[x], k[x])) for x in k):
                return r
        r = self.f(*a, **k)
        self.items.append((a, k, r))
        return r

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.items.clear()


def sx_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SxCache(maxsize)
    return SxCache


# ------------------------------------------------------------------ dispatching
BY_ID = {}


class GSet:
    """a set with symbolic members: (member, condition under which it is there); equal members count once"""
    __slots__ = ("m", "frozen")

    def __init__(self, m, frozen=False):
        self.m, self.frozen = m, frozen

    __class__ = property(lambda self: frozenset if self.frozen else set)

    @staticmethod
    def of(x):
        return list(x.m) if type(x) is GSet else [(i, True) for i in x]

    @staticmethod
    def has(members, a):
        return V.b_or([V.b_and([g, _eqb(x, a)]) for x, g in members])

    def keep(self, o, want):
        o = GSet.of(o)
        return GSet([(x, V.b_and([g, GSet.has(o, x) if want else sx_not(GSet.has(o, x))])) for x, g in self.m],
                    self.frozen)

    def contains(self, a):
        return GSet.has(self.m, a)

    def __contains__(self, a):
        return truth(GSet.has(self.m, a))

    def nonempty(self):
        return V.b_or([g for _, g in self.m])

    def __bool__(self):
        return truth(self.nonempty())

    def issubset(self, o):
        return sx_not(self.keep(o, False).nonempty())

    def issuperset(self, o):
        return sx_not(GSet(GSet.of(o)).keep(self, False).nonempty())

    def isdisjoint(self, o):
        return sx_not(self.keep(o, True).nonempty())

    def difference(self, *os):
        for o in os:
            self = self.keep(o, False)
        return self

    def intersection(self, *os):
        for o in os:
            self = self.keep(o, True)
        return self

    def union(self, *os):
        m = list(self.m)
        for o in os:
            m += GSet.of(o)
        return GSet(m, self.frozen)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if type(o) is not GSet and not isinstance(o, (set, frozenset)):
            return NotImplemented
        return V.b_and([self.issubset(o), self.issuperset(o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        return V.b_and([self.issubset(o), sx_not(self.issuperset(o))])

    def __gt__(self, o):
        return V.b_and([self.issuperset(o), sx_not(self.issubset(o))])

    def __sub__(self, o):
        return self.keep(o, False)

    def __and__(self, o):
        return self.keep(o, True)

    def __rand__(self, o):
        return self.keep(o, True)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __rsub__(self, o):
        return GSet(GSet.of(o)).keep(self, False)

    def __xor__(self, o):
        return self.keep(o, False).union(GSet(GSet.of(o)).keep(self, False))

    __rxor__ = __xor__
    __hash__ = None

    def _plain(self):
        out = []
        for x, g in self.m:
            if truth(g) and not truth(V.b_or([_eqb(y, x) for y in out])):
                out.append(x)
        self.m = [(x, True) for x in out]
        return out

    def __iter__(self):
        return iter(self._plain())

    def __len__(self):
        return len(self._plain())

    def copy(self):
        return GSet(list(self.m), self.frozen)

    def add(self, x):
        self.m.append((x, True))

    def update(self, *os):
        self.m = self.union(*os).m

    def discard(self, x):
        self.m = self.keep([x], False).m

    def __repr__(self):
        return repr(set(realise(x) for x in self._plain()))


def sx_set(kind):
    def make(it=()):
        items = GSet.of(it)
        if any(g is not True for _, g in items) or any(type(x) in SYM for x, _ in items):
            return GSet(items, kind is frozenset)
        return kind(x for x, _ in items)
    return make


def reg(f, g):
    BY_ID[id(f)] = (f, g)


for f, g in [
    (str, sx_str), (repr, sx_repr), (int, sx_int), (float, sx_float), (bool, sx_bool), (len, sx_len),
    (set, sx_set(set)), (frozenset, sx_set(frozenset)),
    (all, sx_all), (any, sx_any), (sum, sx_sum), (type, sx_type), (ord, sx_ord), (chr, sx_chr),
    (hex, sx_hex), (bin, sx_bin), (map, sx_map), (filter, sx_filter), (sorted, sx_sorted),
    (bytes, sx_bytes), (bytearray, sx_bytearray), (format, sx_format), (divmod, sx_divmod),
    (min, lambda *a, **k: sx_minmax("min", a, k)), (max, lambda *a, **k: sx_minmax("max", a, k)),
    (hashlib.sha1, sx_hash("sha1")), (hashlib.sha256, sx_hash("sha256")), (hashlib.md5, sx_hash("md5")),
    (hashlib.sha512, sx_hash("sha512")),
    (hashlib.new, lambda name, data=b"", **k: SymHash(name, data)),
    (_hmac.HMAC, sx_hmac), (_hmac.new, sx_hmac), (_hmac.digest, sx_hmac_digest),
    (_hmac.compare_digest, sx_compare_digest), (secrets.compare_digest, sx_compare_digest),
    (secrets.token_bytes, sx_token_bytes),
    (secrets.token_hex, lambda n=32: sx_token_bytes(n).hex()),
    (functools.lru_cache, sx_lru_cache), (functools.cache, SxCache),
    (bytes.fromhex, sx_fromhex), (int.from_bytes, sx_int_from_bytes),
    (re.match, lambda p, s, flags=0: sx_call(_rc(p, flags).match, s)),
    (re.fullmatch, lambda p, s, flags=0: sx_call(_rc(p, flags).fullmatch, s)),
    (re.search, lambda p, s, flags=0: sx_call(_rc(p, flags).search, s)),
    (re.split, lambda p, s, maxsplit=0, flags=0: sx_call(_rc(p, flags).split, s, maxsplit)),
    (re.findall, lambda p, s, flags=0: sx_call(_rc(p, flags).findall, s)),
    (re.finditer, lambda p, s, flags=0: sx_call(_rc(p, flags).finditer, s)),
    (re.sub, lambda p, r, s, count=0, flags=0: sx_call(_rc(p, flags).sub, r, s, count)),
    (functools.reduce, lambda f, it, *i: _reduce(f, it, *i)),
    (operator.contains, lambda a, b: sx_in(b, a)), (operator.not_, sx_not), (operator.truth, sx_bool),
    (operator.mod, sx_mod), (operator.getitem, sx_getitem), (operator.index, lambda x: x if type(x) is SymInt else operator.index(x)),
    (math.floor, lambda x: x if type(x) is SymInt else math.floor(realise(x))),
    (math.ceil, lambda x: x if type(x) is SymInt else math.ceil(realise(x))),
]:
    reg(f, g)


def _rc(p, flags):
    return p if isinstance(p, re.Pattern) else re.compile(realise(p), flags)


def _reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = sx_call(f, acc, x)
    return acc


# builtins that may receive proxies untouched
PASS = {id(x) for x in (isinstance, issubclass, getattr, setattr, hasattr, delattr, id, callable, iter, next,
                        enumerate, zip, reversed, list, tuple, set, frozenset, print, object, super, property,
                        abs, hash, slice, dict, pow, round, copy.copy, copy.deepcopy)}
PASS |= {id(x) for x in vars(operator).values() if callable(x)}
PASS |= {id(x) for x in vars(itertools).values() if callable(x)}

_CONTAINER = (list, tuple, dict, set, frozenset)
_BM = types.BuiltinMethodType
_LOG = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log", "fatal"}


def lib_module(m):
    return (m or "").split(".")[0]


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        r = BY_ID.get(id(f))
        if r is not None:
            return r[1](*a, **k)
        return f(*a, **k)
    if t is types.MethodType:
        s = f.__self__
        if isinstance(s, logging.Logger):
            return None
        if isinstance(s, logging.LoggerAdapter):
            return None
        return f(*a, **k)
    r = BY_ID.get(id(f))
    if r is not None:
        if f is type and len(a) == 3:
            return type(*a, **k)
        return r[1](*a, **k)
    if isinstance(f, type):
        if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k:
            v = a[0]
            if type(v) in SYM or (type(v) not in (str, int) and not isinstance(v, f) and sym_key(v)):
                return sx_enum(f, v)
            return f(v)
        if id(f) in PASS or f.__module__ != "builtins" or issubclass(f, BaseException):
            return f(*a, **k)
        if f is range and has_sym(a, k):
            return range(*[realise(x) for x in a])
        if has_sym(a, k):
            a, k = tuple(realise(x) for x in a), {n: realise(x) for n, x in k.items()}
        return f(*a, **k)
    if t is _BM or isinstance(f, _BM):
        s = f.__self__
        ts = type(s)
        if ts is str or (isinstance(s, str) and ts not in SYM):
            return str_method(s, f, a, k)
        if ts in (bytes, bytearray):
            if has_sym(a, k) or (a and type(a[0]) in (list, tuple) and deep_sym(a[0])):
                return getattr(SymBytes(list(s)), f.__name__)(*a, **k)
            return f(*a, **k)
        if isinstance(s, dict):
            n = f.__name__
            if n in ("get", "setdefault", "pop", "__contains__", "__getitem__", "__setitem__") and a \
                    and symbolic_lookup(s, a[0]):
                return dict_method(s, n, a, k)
            return f(*a, **k)
        if ts is re.Pattern:
            return pat_method(s, f, a, k)
        if isinstance(s, type):
            if s is bytes and f.__name__ == "fromhex":
                return sx_fromhex(*a)
            if s is bytearray and f.__name__ == "fromhex":
                return SymBytes(SymBytes.lift(sx_fromhex(*a)).c, True)
            if s is int and f.__name__ == "from_bytes":
                return sx_int_from_bytes(*a, **k)
            if s is str and f.__name__ == "maketrans":
                return f(*a, **k)
            if s is dict and f.__name__ == "fromkeys":
                return f(*a, **k)
        if id(f) in PASS or isinstance(s, _CONTAINER):
            if isinstance(s, (set, frozenset)) and a:
                n = f.__name__
                if n in GSET_OPS and any(type(x) in (GSet, SymStr, SymBytes) or type(x) in (list, tuple) and deep_sym(x, 1)
                                         for x in a):
                    return getattr(GSet(GSet.of(s), ts is frozenset), n)(*a)
                if n == "__contains__":
                    return sx_in(a[0], s)
                if sym_key_any(a):
                    return f(*[realise_key(x) for x in a])
            return f(*a, **k)
        if isinstance(s, types.ModuleType):
            if s is math or s.__name__ in ("_struct", "binascii", "zlib", "time", "_codecs"):
                if has_sym(a, k):
                    a, k = tuple(realise(x) for x in a), {n: realise(x) for n, x in k.items()}
            elif s is builtins and has_sym(a, k):
                a, k = tuple(realise(x) for x in a), {n: realise(x) for n, x in k.items()}
            return f(*a, **k)
        return f(*a, **k)
    if t is types.MethodWrapperType:
        n, s = f.__name__, f.__self__
        if n == "__contains__":
            return sx_in(a[0], s)
        if len(a) == 1 and not k and (type(s) in SYM or type(a[0]) in SYM or type(a[0]) is GSet):
            if n == "__getitem__":
                return sx_getitem(s, a[0])
            if n == "__mod__":
                return sx_mod(s, a[0])
            if n in BIN_DUNDER:
                return getattr(operator, n)(s, a[0])
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and type(a[0]) in SYM:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a:
            try:
                g = f.__get__(a[0])
            except TypeError:
                return f(*a, **k)
            if isinstance(g, _BM):
                return sx_call(g, *a[1:], **k)
        return f(*a, **k)
    if t is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is operator.methodcaller or t is operator.itemgetter or t is operator.attrgetter:
        return f(*a, **k)
    return f(*a, **k)


BIN_DUNDER = {"__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__sub__", "__mul__", "__and__",
              "__or__", "__xor__", "__lshift__", "__rshift__", "__floordiv__"}
GSET_OPS = {"issubset", "issuperset", "isdisjoint", "difference", "intersection", "union"}


def sym_key_any(a):
    return any(sym_key(x) for x in a)


def realise_key(x):
    if is_sym(x):
        return realise(x)
    return x


def str_method(s, f, a, k):
    n = f.__name__
    if n == "join":
        items = list(a[0])
        if any(type(x) is SymStr for x in items):
            return SymStr.lift(s).join(items)
        return f(items)
    if n == "format":
        if has_sym(a, k) or any(_contains_sym_obj(x) or deep_sym(x) for x in list(a) + list(k.values())):
            return str_format(str.__str__(s), a, k)
        return f(*a, **k)
    if has_sym(a, k) or (a and type(a[0]) is tuple and deep_sym(a[0])):
        return getattr(SymStr.lift(s), n)(*a, **k)
    return f(*a, **k)


def str_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        first, rest = __import__("_string").formatter_field_name_split(field)
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        if conv == "s":
            v = sx_str(v)
        elif conv == "r":
            v = sx_repr(v)
        if spec and "{" in spec:
            spec = str_format(spec, a, k)
        out.append(sx_format(v, spec or ""))
    return s_concat([o if type(o) in (str, SymStr) else str(o) for o in out])


def pat_method(p, f, a, k):
    n = f.__name__
    args = list(a)
    sym = [x for x in args if type(x) in SYM] + [x for x in k.values() if type(x) in SYM]
    if not sym:
        return f(*a, **k)
    if n == "match":
        return R.pmatch(p, *args, **k)
    if n == "fullmatch":
        return R.pmatch(p, *args, **k, full=True)
    if n == "search":
        return R.psearch(p, *args, **k)
    if n == "finditer":
        return R.pfinditer(p, *args, **k)
    if n == "findall":
        return R.pfindall(p, *args, **k)
    if n == "split":
        return R.psplit(p, *args, **k)
    if n == "sub":
        return R.psub(p, *args, **k)
    return f(*[realise(x) for x in a], **k)


HELPERS = {
    "__sx_plain_bool__": lambda x: True if x else False,
    "__sx_plain_int__": lambda x: x.__index__() if type(x) is SymInt else x,
    "__sx_call__": sx_call, "__sx_fstr__": sx_fstr, "__sx_in__": sx_in, "__sx_not__": sx_not,
    "__sx_is__": sx_is, "__sx_mod__": sx_mod, "__sx_getitem__": sx_getitem,
    "__sx_setitem__": sx_setitem, "__sx_delitem__": sx_delitem, "__sx_enter__": sx_enter,
    "__sx_tick__": sx_tick, "__sx_set__": sx_set(set), "__sx_strpad__": sx_strpad,
}
