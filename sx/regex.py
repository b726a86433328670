"""Regular expressions over symbolic strings, from CPython's own parse tree."""
import re
import re._constants as C
import re._parser as P

from . import values as V
from .strings import SymStr, SymBytes

_CAT = {}


def _cat_mask(cat, flags, text):
    k = (cat, bool(flags & re.ASCII), text)
    if k not in _CAT:
        m = 0
        fl = re.ASCII if flags & re.ASCII else 0
        pat = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
               C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[cat]
        for i in range(256):
            if text:
                ok = re.match(pat, V.TCHR[i], fl)
            else:
                ok = re.match(pat.encode(), bytes([i]))
            if ok:
                m |= 1 << i
        _CAT[k] = m
    return _CAT[k]


class Unsupported(Exception):
    pass


def _ci(m, flags):
    if not flags & re.IGNORECASE:
        return m
    out = m
    for v in V.mask_vals(m):
        for s in (V.tchr(v).lower(), V.tchr(v).upper()):
            if len(s) == 1 and V.tord(s) < 256:
                out |= 1 << V.tord(s)
    return out


def _lit(av, text):
    o = V.tord(chr(av)) if text else av
    return 1 << o if o < 256 else 0


def _range(lo, hi, text):
    return V.mask_of([i for i in range(256) if lo <= (ord(V.TCHR[i]) if text else i) <= hi])


def node_mask(op, av, flags, text):
    """mask of Latin-1 characters a single-character node accepts"""
    if op is C.LITERAL:
        return _ci(_lit(av, text), flags)
    if op is C.NOT_LITERAL:
        return V.FULL & ~_ci(_lit(av, text), flags)
    if op is C.ANY:
        return V.FULL if flags & re.DOTALL else V.FULL & ~(1 << 10)
    if op is C.IN:
        m, neg = 0, False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                m |= _lit(a, text)
            elif o is C.RANGE:
                m |= _range(a[0], a[1], text)
            elif o is C.CATEGORY:
                m |= _cat_mask(a, flags, text)
            else:
                raise Unsupported(o)
        m = _ci(m, flags)
        return V.FULL & ~m if neg else m
    return None


_tree_cache = {}


def tree(pat):
    k = (pat.pattern, pat.flags)
    if k not in _tree_cache:
        _tree_cache[k] = P.parse(pat.pattern, pat.flags)
    return _tree_cache[k]


class Lang:
    """Which end positions can a match starting at a position reach?"""

    def __init__(self, pat, s, lo, hi):
        self.pat, self.s, self.lo, self.hi = pat, s, lo, hi
        self.flags = pat.flags
        self.text = isinstance(pat.pattern, str)

    def test(self, op, av, ch):
        if type(ch) is int and ch > 255:
            raise Unsupported("wide char")
        return V.ch_in(ch, node_mask(op, av, self.flags, self.text))

    def at(self, av, p):
        s, lo, hi = self.s, self.lo, self.hi
        if av is C.AT_BEGINNING:
            if self.flags & re.MULTILINE:
                return V.b_or([p == lo, p > lo and V.ch_in(s[p - 1], 1 << 10)])
            return p == lo
        if av is C.AT_BEGINNING_STRING:
            return p == lo
        if av is C.AT_END_STRING:
            return p == hi
        if av is C.AT_END:
            if self.flags & re.MULTILINE:
                return V.b_or([p == hi, p < hi and V.ch_in(s[p], 1 << 10)])
            return p == hi or (p == hi - 1 and V.ch_in(s[p], 1 << 10))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = _cat_mask(C.CATEGORY_WORD, self.flags, self.text)
            a = V.ch_in(s[p - 1], w) if p > lo else False
            b = V.ch_in(s[p], w) if p < hi else False
            x = V.b_or([V.b_and([a, V.b_not(b)]), V.b_and([b, V.b_not(a)])])
            return x if av is C.AT_BOUNDARY else V.b_not(x)
        raise Unsupported(av)

    def seq(self, nodes, ends):
        for op, av in nodes:
            ends = self.node(op, av, ends)
            if not ends:
                break
        return ends

    @staticmethod
    def merge(d, p, c):
        if c is False:
            return
        d[p] = V.b_or([d[p], c]) if p in d else c

    def node(self, op, av, ends):
        out = {}
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            for p, c in ends.items():
                if p < self.hi:
                    self.merge(out, p + 1, V.b_and([c, self.test(op, av, self.s[p])]))
            return out
        if op is C.AT:
            for p, c in ends.items():
                self.merge(out, p, V.b_and([c, self.at(av, p)]))
            return out
        if op is C.BRANCH:
            for alt in av[1]:
                for p, c in self.seq(alt, dict(ends)).items():
                    self.merge(out, p, c)
            return out
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            return self.seq(av[3], ends)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            mn, mx, body = av
            cur = dict(ends)
            for _ in range(mn):
                cur = self.seq(body, cur)
                if not cur:
                    return {}
            out = dict(cur)
            n = mn
            while cur and (mx is C.MAXREPEAT or n < mx):
                nxt = {}
                for p, c in cur.items():
                    for q, d in self.seq(body, {p: c}).items():
                        if q > p:
                            self.merge(nxt, q, d)
                for q, d in nxt.items():
                    self.merge(out, q, d)
                cur = nxt
                n += 1
            return out
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, body = av
            if d < 0:
                raise Unsupported("lookbehind")
            for p, c in ends.items():
                r = V.b_or(list(self.seq(body, {p: True}).values()))
                if op is C.ASSERT_NOT:
                    r = V.b_not(r)
                self.merge(out, p, V.b_and([c, r]))
            return out
        raise Unsupported(op)


class Back(Lang):
    """Backtracking matcher in CPython's priority order; tests fork."""

    def run(self, nodes, i, p, g, k):
        # nodes: list, i index; k: continuation(p, groups) -> result or None
        if i == len(nodes):
            return k(p, g)
        op, av = nodes[i]

        def nxt(q, g2):
            return self.run(nodes, i + 1, q, g2, k)

        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if p < self.hi and self.test(op, av, self.s[p]):
                return nxt(p + 1, g)
            return None
        if op is C.AT:
            return nxt(p, g) if self.at(av, p) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, p, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid = av[0]
            if av[1] or av[2]:
                raise Unsupported("inline flags")

            def close(q, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (p, q)
                return nxt(q, g2)
            return self.run(list(av[3]), 0, p, g, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            mn, mx, body = av
            body = list(body)

            def rep(n, q, g2, last):
                def more():
                    if mx is not C.MAXREPEAT and n >= mx:
                        return None

                    def after(q2, g3):
                        if q2 == q and n >= mn:
                            return None
                        return rep(n + 1, q2, g3, q)
                    return self.run(body, 0, q, g2, after)
                if n < mn:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(q, g2)
                r = nxt(q, g2)
                return r if r is not None else more()
            return rep(0, p, g, None)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, body = av
            if d < 0:
                raise Unsupported("lookbehind")
            r = self.run(list(body), 0, p, g, lambda q, g2: (q, g2))
            if op is C.ASSERT:
                return nxt(p, r[1]) if r is not None else None
            return nxt(p, g) if r is None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            n = b - a
            if p + n > self.hi:
                return None
            for j in range(n):
                if not V.ch_eq(self.s[a + j], self.s[p + j]):
                    return None
            return nxt(p + n, g)
        raise Unsupported(op)

    def match_at(self, p, full=False, nonempty=False):
        def fin(q, g):
            if (full and q != self.hi) or (nonempty and q == p):
                return None
            return (q, g)
        return self.run(list(tree(self.pat)), 0, p, {}, fin)


class SymMatch:
    """Result of a successful match; positions are worked out on demand."""

    def __init__(self, pat, string, start, full, pos, endpos):
        self.re = pat
        self.string = string
        self.pos, self.endpos = pos, endpos
        self._start, self._full = start, full
        self._r = None

    __class__ = property(lambda self: re.Match)

    def _solve(self):
        if self._r is None:
            b = Back(self.re, self.string.c, self.pos, self.endpos)
            r = b.match_at(self._start, self._full)
            if r is None:
                raise RuntimeError("regex engine mismatch")
            self._r = r
        return self._r

    def span(self, g=0):
        end, gs = self._solve()
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return (self._start, end)
        if g > self.re.groups:
            raise IndexError("no such group")
        return gs.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    @property
    def lastindex(self):
        _, gs = self._solve()
        return max(gs) if gs else None

    def expand(self, t):
        raise Unsupported("expand")

    def __bool__(self):
        return True


SEEN = {}


def _lift(pat, s):
    cls = SymStr if isinstance(pat.pattern, str) else SymBytes
    l = cls.lift(s)
    if l is None:
        raise TypeError("expected string or bytes-like object")
    return l


def pmatch(pat, s, pos=0, endpos=None, full=False):
    s = _lift(pat, s)
    hi = len(s.c) if endpos is None else min(V.realise_int(endpos), len(s.c))
    pos = V.realise_int(pos)
    SEEN[(pat.pattern, pat.flags)] = "fullmatch" if full else "match"
    try:
        L = Lang(pat, s.c, pos, hi)
        ends = L.seq(tree(pat), {pos: True})
        c = ends.get(hi, False) if full else V.b_or(list(ends.values()))
    except Unsupported:
        b = Back(pat, s.c, pos, hi)
        c = b.match_at(pos, full) is not None
    if c:
        return SymMatch(pat, s, pos, full, pos, hi)
    return None


def psearch(pat, s, pos=0, endpos=None):
    s = _lift(pat, s)
    hi = len(s.c) if endpos is None else min(V.realise_int(endpos), len(s.c))
    pos = V.realise_int(pos)
    SEEN[(pat.pattern, pat.flags)] = "search"
    L = Lang(pat, s.c, pos, hi)
    for st in range(pos, hi + 1):
        try:
            ends = L.seq(tree(pat), {st: True})
            c = V.b_or(list(ends.values()))
        except Unsupported:
            c = Back(pat, s.c, pos, hi).match_at(st) is not None
        if c:
            return SymMatch(pat, s, st, False, pos, hi)
    return None


def pfinditer(pat, s, pos=0, endpos=None):
    s = _lift(pat, s)
    hi = len(s.c) if endpos is None else min(V.realise_int(endpos), len(s.c))
    p, must = pos, False
    while p <= hi:
        found = None
        for st in range(p, hi + 1):
            r = Back(pat, s.c, pos, hi).match_at(st, False, must and st == p)
            if r is not None:
                found = SymMatch(pat, s, st, False, pos, hi)
                found._r = r
                break
        if found is None:
            return
        yield found
        a, b = found.span()
        p, must = b, a == b


def pfindall(pat, s, *a):
    out = []
    for m in pfinditer(pat, s, *a):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            g = m.group(1)
            out.append("" if g is None else g)
        else:
            out.append(tuple("" if g is None else g for g in m.groups()))
    return out


def psplit(pat, s, maxsplit=0):
    s = _lift(pat, s)
    out, last, n = [], 0, 0
    for m in pfinditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(s[last:a])
        out += list(m.groups())
        last = b
        n += 1
    out.append(s[last:])
    return out


def psub(pat, repl, s, count=0, call=None):
    s = _lift(pat, s)
    out, last, n = [], 0, 0
    for m in pfinditer(pat, s):
        if count and n >= count:
            break
        a, b = m.span()
        out += s.c[last:a]
        if callable(repl):
            r = repl(m)
        else:
            if "\\" in (repl if isinstance(repl, str) else ""):
                raise Unsupported("template")
            r = repl
        out += type(s).lift(r).c
        last = b
        n += 1
    out += s.c[last:]
    return s.mk(out)
