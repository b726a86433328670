"""Exponential ambiguity of the regular expressions the library consults.

A backtracking matcher takes exponential time exactly when some position of the
pattern's automaton has two different runs back to itself over one word, and the
overall match fails afterwards. The solver looks for such a position, word and
pair of runs; the word is then pumped against the real code."""
import re
import re._constants as C
import time

import z3

from . import regex, symctx, values as V

EPS = None


class NFA:
    def __init__(self, pat):
        self.eps = {}
        self.masks = {}      # position state -> mask
        self.out = {}
        self.n = 0
        self.flags = pat.flags
        self.text = isinstance(pat.pattern, str)
        self.start = self.new()
        self.end = self.build(regex.tree(pat), self.start)

    def new(self):
        self.n += 1
        self.eps[self.n] = []
        return self.n

    def link(self, a, b):
        self.eps[a].append(b)

    def build(self, nodes, s):
        for op, av in nodes:
            s = self.node(op, av, s)
        return s

    def node(self, op, av, s):
        m = regex.node_mask(op, av, self.flags, self.text)
        if m is not None:
            a, b = self.new(), self.new()
            self.link(s, a)
            self.masks[a] = m
            self.out[a] = b
            return b
        if op is C.SUBPATTERN:
            return self.build(av[3], s)
        if op is C.ATOMIC_GROUP:
            return self.build(av, s)
        if op is C.BRANCH:
            e = self.new()
            for alt in av[1]:
                a = self.new()
                self.link(s, a)
                self.link(self.build(alt, a), e)
            return e
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            for _ in range(min(lo, 3)):
                s = self.build(sub, s)
            if hi is C.MAXREPEAT or hi > 8:
                h, e = self.new(), self.new()
                self.link(s, h)
                self.link(h, e)
                self.link(self.build(sub, h), h)
                return e
            e = self.new()
            for _ in range(hi - min(lo, 3)):
                self.link(s, e)
                s = self.build(sub, s)
            self.link(s, e)
            return e
        return s          # anchors, assertions: no characters consumed

    def edges(self):
        """(from position, to position, mask), one per epsilon path that takes no link twice
        (a loop with an empty way through is entered again within another loop)"""
        out = []

        def walk(src, st, seen):
            if st in self.masks:
                out.append((src, st, self.masks[st]))
                return
            for i, t in enumerate(self.eps[st]):
                if (st, i) not in seen:
                    walk(src, t, seen | {(st, i)})
        walk(0, self.start, frozenset())
        for p in self.masks:
            b = self.out[p]
            walk(p, b, frozenset())
        return out


def member(c, mask):
    cs, vals = [], V.mask_vals(mask)
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        cs.append(z3.And(z3.UGE(c, vals[i]), z3.ULE(c, vals[j])) if j > i else c == vals[i])
        i = j + 1
    return z3.Or(cs)


def pump_word(pat, length, stats):
    """(prefix, word) pumping the pattern, or None"""
    ed = [e for e in NFA(pat).edges() if e[2]]
    if len(ed) > 400:
        raise regex.Unsupported("pattern too large")
    W = 10
    # positions on a cycle only
    k_of = {}
    for L in range(1, length + 1):
        s = z3.Solver()
        s.set("timeout", 60000)
        ch = [z3.BitVec(f"c{i}", 8) for i in range(L)]
        runs = []
        for r in "ab":
            st = [z3.BitVec(f"{r}{i}", W) for i in range(L + 1)]
            eid = [z3.BitVec(f"e{r}{i}", W) for i in range(L)]
            for i in range(L):
                s.add(z3.Or([z3.And(eid[i] == k, st[i] == x, st[i + 1] == y, member(ch[i], m))
                             for k, (x, y, m) in enumerate(ed)]))
            s.add(st[0] == st[L], st[0] != 0)
            runs.append((st, eid))
        s.add(runs[0][0][0] == runs[1][0][0])
        s.add(z3.Or([a != b for a, b in zip(runs[0][1], runs[1][1])]))
        t = time.perf_counter()
        r = s.check()
        stats["solver_s"] += time.perf_counter() - t
        stats["queries"] += 1
        stats["checks"] += 1
        stats["decisions"] += 1
        if r == z3.unsat:
            stats["unsat"] += 1
            stats["proved_checks"] += 1
            continue
        if r == z3.unknown:
            stats["unknown"] += 1
            continue
        stats["sat"] += 1
        m = s.model()
        word = "".join(chr(m.eval(c, model_completion=True).as_long()) for c in ch)
        q = m.eval(runs[0][0][0], model_completion=True).as_long()
        return prefix_to(ed, q), word
    return None


def prefix_to(ed, q):
    seen, todo = {0: ""}, [0]
    while todo:
        x = todo.pop(0)
        for a, b, m in ed:
            if a == x and b not in seen:
                vals = V.mask_vals(m)
                nice = [v for v in vals if chr(v) in "0123456789#*"] or vals
                seen[b] = seen[x] + chr(nice[0])
                todo.append(b)
    return seen.get(q, "")


TAILS = ["", "##", "!", "*", "#", "*##", "a##", "##!", "#*##", "*#"]


def unit(probe, params, length):
    regex.SEEN.clear()
    r = symctx.run_unit(probe, params, slice_s=20.0, eager=False)
    st = r["stats"]
    found, notes = [], dict(r["notes"])
    for (p, fl) in sorted(regex.SEEN, key=str):
        pat = re.compile(p, fl & ~re.UNICODE if isinstance(p, str) else fl)
        try:
            w = pump_word(pat, length, st)
        except regex.Unsupported as e:
            notes["abort:pattern " + str(e)] = 1
            continue
        r["reached"]["pattern checked"] = r["reached"].get("pattern checked", 0) + 1
        notes["patterns"] = notes.get("patterns", 0) + 1
        if w is not None:
            found.append({"msg": "does not finish", "timeout": 15,
                          "inputs": {"prefix": w[0], "loop": w[1], "tails": TAILS}})
    r["violations"] = found          # the probe itself asserts nothing
    r["errors"] = []
    r["samples"] = []
    r["pending"] = []
    r["notes"] = notes
    return r
