"""SymStr / SymBytes: fixed-length sequences of possibly symbolic characters."""
import z3
from .core import E
from . import values as V


def V_norm(items):
    return [V.norm(c) for c in items]


class _Seq:
    """Behaviour shared by strings and bytes. Subclasses set TEXT."""
    __slots__ = ("c", "mut")
    __sym__ = True

    def __init__(self, items, mut=False):
        self.c = list(items)
        self.mut = mut

    # -------- helpers
    @classmethod
    def lift(cls, x):
        if type(x) is cls:
            return x
        if cls.TEXT:
            if isinstance(x, str) and type(x) not in (SymStr,):
                return cls([V.tord(ch) for ch in str.__str__(x)])
        elif type(x) in (bytes, bytearray, memoryview):
            return cls(list(bytes(x)))
        return None

    def mk(self, items):
        """Concrete when every character is, symbolic otherwise."""
        items = V_norm(items)
        if all(type(i) is int for i in items):
            if self.TEXT:
                return "".join(map(chr, items))
            return bytes(items)
        return type(self)(items)

    def need(self, x, what="argument"):
        r = self.lift(x)
        if r is None:
            exp = "str" if self.TEXT else "a bytes-like object"
            raise TypeError(f"{what} must be {exp}, not {V_typename(x)}")
        return r

    # -------- sequence protocol
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for i in range(len(self.c)):
            yield self[i]

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(V.realise_int(x) if V.is_sym(x) else x for x in (i.start, i.stop, i.step)))
            return self.mk(self.c[i])
        if V.is_sym(i):
            i = V.realise_int(i)
        if self.TEXT:
            try:
                return self.mk([self.c[i]])
            except IndexError:
                raise IndexError("string index out of range") from None
        try:
            return V.ch_int(V.norm(self.c[i]))
        except IndexError:
            raise IndexError("index out of range") from None

    def __add__(self, o):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        return self.mk(self.c + o.c)

    def __radd__(self, o):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        return self.mk(o.c + self.c)

    def __mul__(self, n):
        n = V.realise_int(n)
        return self.mk(self.c * n)

    __rmul__ = __mul__

    # -------- comparison
    def eq(self, o):
        if len(self.c) != len(o.c):
            return False
        return V.b_and([V.ch_eq(a, b) for a, b in zip(self.c, o.c)])

    def __eq__(self, o):
        l = self.lift(o)
        if l is None:
            if self.TEXT and isinstance(o, str):
                return NotImplemented
            return NotImplemented
        return self.eq(l)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else V.b_not(r)

    def _lt(self, o, orequal):
        # lexicographic, built from the end
        a, b = self.c, o.c
        n = min(len(a), len(b))
        acc = len(a) < len(b) or (orequal and len(a) == len(b))
        for i in range(n - 1, -1, -1):
            lt = V.ch_lt(a[i], b[i])
            eq = V.ch_eq(a[i], b[i])
            acc = V.b_or([lt, V.b_and([eq, acc])])
        return acc

    def __lt__(self, o):
        l = self.lift(o)
        return NotImplemented if l is None else self._lt(l, False)

    def __le__(self, o):
        l = self.lift(o)
        return NotImplemented if l is None else self._lt(l, True)

    def __gt__(self, o):
        l = self.lift(o)
        return NotImplemented if l is None else l._lt(self, False)

    def __ge__(self, o):
        l = self.lift(o)
        return NotImplemented if l is None else l._lt(self, True)

    def __hash__(self):
        if PROBE.on:
            PROBE.hit = True
            return 0
        if SYMKEY.on:
            return 0
        return hash(V.realise(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -------- matching helpers
    def at(self, i, sub):
        """condition: sub occurs at position i"""
        if i < 0 or i + len(sub.c) > len(self.c):
            return False
        return V.b_and([V.ch_eq(a, b) for a, b in zip(self.c[i:i + len(sub.c)], sub.c)])

    def _range(self, start, end):
        n = len(self.c)
        s, e, _ = slice(_ri(start), _ri(end)).indices(n)
        return s, e

    def contains(self, sub):
        if not self.TEXT and V.is_int(sub):
            return V.b_or([V.ch_int(ch) == sub for ch in self.c])
        sub = self.need(sub, "'in <string>' requires string as left operand")
        return V.b_or([self.at(i, sub) for i in range(len(self.c) - len(sub.c) + 1)])

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return V.b_or([self.startswith(x, start, end) for x in p])
        p = self.need(p, "startswith first arg")
        if start is None and end is None:
            return self.at(0, p)
        s, e = self._range(start, end)
        if (start is not None and _ri(start) > len(self.c)) or s + len(p.c) > e:
            return False
        return self.at(s, p)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return V.b_or([self.endswith(x, start, end) for x in p])
        p = self.need(p, "endswith first arg")
        s, e = self._range(start, end)
        if (start is not None and _ri(start) > len(self.c)) or e - len(p.c) < s:
            return False
        return self.at(e - len(p.c), p)

    def removeprefix(self, p):
        p = self.need(p)
        if p.c and self.startswith(p):
            return self.mk(self.c[len(p.c):])
        return self.mk(self.c)

    def removesuffix(self, p):
        p = self.need(p)
        if p.c and self.endswith(p):
            return self.mk(self.c[:-len(p.c)])
        return self.mk(self.c)

    def count(self, sub, start=None, end=None):
        if not self.TEXT and V.is_int(sub):
            sub = type(self)([V.realise_int(sub)])
        sub = self.need(sub)
        s, e = self._range(start, end)
        k = len(sub.c)
        if k == 0:
            return max(0, e - s + 1)
        used = []  # used[i]: a counted match starts at s+i
        total = 0
        for i in range(s, e - k + 1):
            m = self.at(i, sub)
            prev = used[-(k - 1):] if k > 1 else []
            m = V.b_and([m] + [V.b_not(u) for u in prev])
            used.append(m)
            if m is not False:
                total = total + (V.sint(m) if V.is_sym(m) else 1)
        return total

    def find(self, sub, start=None, end=None):
        if not self.TEXT and V.is_int(sub):
            sub = type(self)([V.realise_int(sub)])
        sub = self.need(sub)
        s, e = self._range(start, end)
        if start is not None and _ri(start) > len(self.c):
            return -1
        for i in range(s, e - len(sub.c) + 1):
            if self.at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        if not self.TEXT and V.is_int(sub):
            sub = type(self)([V.realise_int(sub)])
        sub = self.need(sub)
        s, e = self._range(start, end)
        if start is not None and _ri(start) > len(self.c):
            return -1
        for i in range(e - len(sub.c), s - 1, -1):
            if self.at(i, sub):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def _ws(self):
        return V.M_SPACE if self.TEXT else V.M_BSPACE

    def split(self, sep=None, maxsplit=-1):
        maxsplit = _ri(maxsplit)
        out, cur, i = [], [], 0
        n = len(self.c)
        if sep is None:
            ws = self._ws()
            while i < n:
                while i < n and V.ch_in(self.c[i], ws):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self.mk(self.c[i:])
                    out.append(rest.rstrip())
                    return out
                j = i
                while j < n and not V.ch_in(self.c[j], ws):
                    j += 1
                out.append(self.mk(self.c[i:j]))
                i = j
            return out
        sep = self.need(sep, "sep")
        if not sep.c:
            raise ValueError("empty separator")
        while i < n:
            if (maxsplit < 0 or len(out) < maxsplit) and self.at(i, sep):
                out.append(self.mk(cur))
                cur = []
                i += len(sep.c)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(self.mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = _ri(maxsplit)
        if sep is None:
            r = self.mk(self.c[::-1])
            parts = r.split(None, maxsplit)
            return [self.mk(self.lift(x).c[::-1]) for x in reversed(parts)]
        sep = self.need(sep, "sep")
        if not sep.c:
            raise ValueError("empty separator")
        rev = type(self)(self.c[::-1])
        parts = rev.split(type(self)(sep.c[::-1]), maxsplit)
        return [self.mk(self.lift(x).c[::-1]) for x in reversed(parts)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self.mk(self.c), self.mk([]), self.mk([]))
        k = len(sep)
        return (self.mk(self.c[:i]), sep, self.mk(self.c[i + k:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.mk([]), self.mk([]), self.mk(self.c))
        k = len(sep)
        return (self.mk(self.c[:i]), sep, self.mk(self.c[i + k:]))

    def splitlines(self, keepends=False):
        br = V.mask_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") if self.TEXT else V.mask_of("\n\r")
        out, i, n, start = [], 0, len(self.c), 0
        while i < n:
            if V.ch_in(self.c[i], br):
                j = i + 1
                if V.ch_in(self.c[i], 1 << 13) and j < n and V.ch_in(self.c[j], 1 << 10):
                    j += 1
                out.append(self.mk(self.c[start:j if keepends else i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(self.mk(self.c[start:]))
        return out

    def _stripset(self, chars):
        if chars is None:
            return lambda ch: V.ch_in(ch, self._ws())
        cs = self.need(chars)
        if all(type(x) is int for x in cs.c):
            m = V.mask_of(cs.c)
            big = [x for x in cs.c if x > 255]
            return lambda ch: (ch in big) or V.ch_in(ch, m) if type(ch) is int else V.ch_in(ch, m)
        return lambda ch: V.b_or([V.ch_eq(ch, x) for x in cs.c])

    def lstrip(self, chars=None):
        t = self._stripset(chars)
        i = 0
        while i < len(self.c) and t(self.c[i]):
            i += 1
        return self.mk(self.c[i:])

    def rstrip(self, chars=None):
        t = self._stripset(chars)
        j = len(self.c)
        while j > 0 and t(self.c[j - 1]):
            j -= 1
        return self.mk(self.c[:j])

    def strip(self, chars=None):
        t = self._stripset(chars)
        i, j = 0, len(self.c)
        while i < j and t(self.c[i]):
            i += 1
        while j > i and t(self.c[j - 1]):
            j -= 1
        return self.mk(self.c[i:j])

    def replace(self, old, new, count=-1):
        old, new = self.need(old), self.need(new)
        count = _ri(count)
        if not old.c:
            return type(self).lift(V.realise(self).replace(V.realise(old), V.realise(new), count))
        out, i, done = [], 0, 0
        while i < len(self.c):
            if (count < 0 or done < count) and self.at(i, old):
                out += new.c
                i += len(old.c)
                done += 1
            else:
                out.append(self.c[i])
                i += 1
        return self.mk(out)

    def join(self, it):
        out = []
        first = True
        for x in it:
            l = self.lift(x)
            if l is None:
                raise TypeError(f"sequence item: expected str instance, {V_typename(x)} found")
            if not first:
                out += self.c
            first = False
            out += l.c
        return self.mk(out)

    def _just(self, width, fill, left):
        f = self.lift(fill)
        pad = [f.c[0]] * max(0, _ri(width) - len(self.c))
        return self.mk(pad + self.c if left else self.c + pad)

    def ljust(self, w, f=None):
        return self._just(w, f if f is not None else (" " if self.TEXT else b" "), False)

    def rjust(self, w, f=None):
        return self._just(w, f if f is not None else (" " if self.TEXT else b" "), True)

    def center(self, w, f=" "):
        pad = max(0, _ri(w) - len(self.c))
        l = pad // 2 + (pad & _ri(w) & 1)
        fc = self.lift(f).c[0]
        return self.mk([fc] * l + self.c + [fc] * (pad - l))

    def zfill(self, w):
        w = _ri(w)
        pad = [48] * max(0, w - len(self.c))
        if pad and self.c and V.ch_in(self.c[0], V.mask_of("+-")):
            return self.mk([self.c[0]] + pad + self.c[1:])
        return self.mk(pad + self.c)

    def _all(self, mask):
        if not self.c:
            return False
        return V.b_and([V.ch_in(ch, mask) if type(ch) is Ch or ch < 256 else _bigtest(ch, mask) for ch in self.c])

    def isascii(self):
        return V.b_and([V.ch_in(ch, V.M_ASCII) for ch in self.c])

    def _mapc(self, fn):
        return self.mk([V.ch_map(ch, fn) for ch in self.c])


Ch = V.Ch


def _bigtest(ch, mask):
    for name, m in _PRED.items():
        if m == mask:
            return getattr(V.tchr(ch), name)()
    return False


_PRED = {n: V._pred_mask(getattr(str, n)) for n in
         "isdigit isnumeric isdecimal isspace isalpha isalnum".split()}
_BPRED = {n: V.mask_of([i for i in range(256) if getattr(bytes([i]), n)()]) for n in
          "isdigit isspace isalpha isalnum".split()}


def _ri(x):
    return V.realise_int(x) if V.is_sym(x) else x


def V_typename(x):
    return x.__class__.__name__


class _Flag:
    def __init__(self):
        self.on = False
        self.hit = False


PROBE = _Flag()
SYMKEY = _Flag()


class SymStr(_Seq):
    __slots__ = ()
    TEXT = True
    __class__ = property(lambda self: str)

    def __repr__(self):
        return repr(V.realise(self))

    def __str__(self):
        return V.realise(self)

    def __format__(self, spec):
        return format(V.realise(self), spec)

    def isdigit(self):
        return self._all(_PRED["isdigit"])

    def isnumeric(self):
        return self._all(_PRED["isnumeric"])

    def isdecimal(self):
        return self._all(_PRED["isdecimal"])

    def isspace(self):
        return self._all(_PRED["isspace"])

    def isalpha(self):
        return self._all(_PRED["isalpha"])

    def isalnum(self):
        return self._all(_PRED["isalnum"])

    def lower(self):
        def low(o):
            u = V.tchr(o).lower()
            return V.tord(u) if len(u) == 1 and (V.tord(u) < 256 or o > 255) else o
        return self._mapc(low)

    def upper(self):
        def up(o):
            u = V.tchr(o).upper()
            return V.tord(u) if len(u) == 1 and (V.tord(u) < 256 or o > 255) else o
        return self._mapc(up)

    casefold = lower

    def swapcase(self):
        return V.realise(self).swapcase()

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        if enc in ("ascii", "usascii", "utf8", "latin1", "iso88591"):
            if enc in ("latin1", "iso88591"):
                ok = V.b_and([V.ch_in(ch, V.FULL & ~V.M_ALIAS) for ch in self.c])
            else:
                ok = self.isascii()
            if ok:
                r = [c for c in self.c]
                if all(type(x) is int and x < 256 for x in r):
                    return bytes(r)
                return SymBytes(r)
            if enc in ("ascii", "usascii") and errors == "strict":
                # find the first offending position
                for i, ch in enumerate(self.c):
                    if not V.ch_in(ch, V.M_ASCII):
                        raise UnicodeEncodeError("ascii", "?" * len(self.c), i, i + 1,
                                                 "ordinal not in range(128)")
        return V.realise(self).encode(encoding, errors)

    def translate(self, table):
        out = []
        for ch in self.c:
            if type(ch) is int:
                out += [V.tord(x) for x in V.tchr(ch).translate(table)]
                continue
            groups = {}
            for v in V.mask_vals(ch.poss()):
                r = V.tchr(v).translate(table)
                key = "=" if r == V.tchr(v) else r
                groups[key] = groups.get(key, 0) | 1 << v
            left = list(groups.items())
            while len(left) > 1 and not V.ch_in(ch, left[-1][1]):
                left.pop()
            r = left[-1][0]
            if r == "=":
                out.append(ch)
            else:
                out += [V.tord(x) for x in r]
        return self.mk(out)

    def format(self, *a, **k):
        return V.realise(self).format(*a, **k)

    def expandtabs(self, *a):
        return V.realise(self).expandtabs(*a)

    def isidentifier(self):
        return V.realise(self).isidentifier()

    def isprintable(self):
        return V.realise(self).isprintable()

    def title(self):
        return V.realise(self).title()

    def capitalize(self):
        return V.realise(self).capitalize()

    def isupper(self):
        return V.realise(self).isupper()

    def islower(self):
        return V.realise(self).islower()


class SymBytes(_Seq):
    __slots__ = ()
    TEXT = False
    __class__ = property(lambda self: bytearray if self.mut else bytes)

    def __repr__(self):
        return repr(V.realise(self))

    __str__ = __repr__

    def __bytes__(self):
        return V.realise(self)

    def isdigit(self):
        return self._all(_BPRED["isdigit"])

    def isspace(self):
        return self._all(_BPRED["isspace"])

    def isalpha(self):
        return self._all(_BPRED["isalpha"])

    def isalnum(self):
        return self._all(_BPRED["isalnum"])

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        if enc in ("latin1", "iso88591"):
            c = [V._REAL + V.realise_ch(ch) if V.ch_in(ch, V.M_ALIAS) else ch for ch in self.c]
            return SymStr(c).mk(c)
        if enc in ("ascii", "usascii", "utf8"):
            if self.isascii():
                return SymStr(self.c).mk(self.c)
            if enc in ("ascii", "usascii"):
                if errors == "strict":
                    for i, ch in enumerate(self.c):
                        if not V.ch_in(ch, V.M_ASCII):
                            raise UnicodeDecodeError("ascii", b"?" * len(self.c), i, i + 1,
                                                     "ordinal not in range(128)")
                if errors == "ignore":
                    out = [ch for ch in self.c if V.ch_in(ch, V.M_ASCII)]
                    return SymStr(out).mk(out)
                if errors == "replace":
                    out = [ch if V.ch_in(ch, V.M_ASCII) else 0xFFFD for ch in self.c]
                    return SymStr(out).mk(out)
        return V.realise(self).decode(encoding, errors)

    def hex(self, sep=None, bytes_per_sep=1):
        out = []
        for i, ch in enumerate(self.c):
            if sep is not None and i:
                out.append(ord(sep))
            if type(ch) is int:
                out += [ord(x) for x in "%02x" % ch]
            else:
                for e in (z3.LShR(ch.e, 4), ch.e & 15):
                    out.append(hexch(e))
        return SymStr(out).mk(out)

    def append(self, x):
        self.c.append(x if type(x) is int else V.Ch(z3.Extract(7, 0, V.ext(x.e, max(8, x.e.size())))))

    def extend(self, xs):
        l = self.lift(xs)
        self.c += l.c

    def __iadd__(self, o):
        l = self.lift(o)
        if l is None:
            return NotImplemented
        if self.mut:
            self.c += l.c
            return self
        return self.mk(self.c + l.c)

    def clear(self):
        self.c.clear()

    def __delitem__(self, k):
        del self.c[k]

    def lower(self):
        return self._mapc(lambda o: bytes([o]).lower()[0])

    def upper(self):
        return self._mapc(lambda o: bytes([o]).upper()[0])


M_LHEX = V.mask_of("0123456789abcdef")


def hexch(e):
    """lower-case hex digit character of an 8-bit nibble expression"""
    return V.mkch(z3.If(z3.ULE(e, 9), e + 48, e + 87), M_LHEX)
