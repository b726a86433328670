"""Symbolic harness context and per-unit exploration."""
import asyncio
import gc
import importlib
import sys
import time
import types
import enum
import traceback

import z3

from .core import E, Steer, PathAbort, Violated
from . import values as V
from . import calls
from .strings import SymStr, SymBytes
from .ctx import Ctx, BYTES, LATIN, DIGITS, plain, Violation, Skip
from .instrument import Finder

REPO = "/repo"
FINDER = None


def setup(harness_dir):
    """Install the instrumenting importer and load the library under test."""
    global FINDER
    import logging
    logging.disable(logging.CRITICAL)
    FINDER = Finder({
        "pyown": REPO + "/pyown",
        "props": harness_dir,
        "_sxdatetime": "/usr/lib/python3.12/_pydatetime.py",
        "_sxipaddress": "/usr/lib/python3.12/ipaddress.py",
    })
    import _pydatetime
    import ipaddress
    FINDER.roots["_sxdatetime"] = _pydatetime.__file__
    FINDER.roots["_sxipaddress"] = ipaddress.__file__
    sys.meta_path.insert(0, FINDER)
    calls.INSTRUMENTED |= set(FINDER.roots)
    import functools
    orig = functools.lru_cache, functools.cache
    functools.lru_cache, functools.cache = calls.sx_lru_cache, calls.SxCache
    try:
        for m in ("pyown", "pyown.client", "pyown.items", "pyown.items.utils", "pyown.items.camera",
                  "pyown.items.lighting", "pyown.items.energy", "pyown.items.gateway",
                  "pyown.items.automation", "pyown.auth", "pyown.messages", "pyown.tags", "pyown.protocol",
                  "pyown.tags.where"):
            importlib.import_module(m)
    finally:
        functools.lru_cache, functools.cache = orig
    dt = sys.modules.get("_sxdatetime") or importlib.import_module("_sxdatetime")
    SymCtx.dt = dt

    @classmethod
    def now(cls, tz=None):
        if SymCtx.now_value is None:
            return cls(2024, 5, 17, 10, 30, 0)
        return SymCtx.now_value
    dt._time = TimeShim(dt._time)
    dt.datetime.now = now
    dt.datetime.today = now
    dt.date.today = classmethod(lambda cls: dt.datetime.now().date())
    snapshot()


class TimeShim(types.ModuleType):
    """the time module, with strftime() of symbolic fields (C locale)"""

    def __init__(self, real):
        super().__init__("time")
        self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
        self.strftime = self._strftime
        self.struct_time = lambda t: tuple(t) if calls.deep_sym(t) else real.struct_time(t)
        self._real = real

    def _strftime(self, fmt, t):
        if not calls.deep_sym(fmt) and not calls.deep_sym(tuple(t)):
            return self._real.strftime(fmt, t)
        y, mo, d, h, mi, s, wd, yd = tuple(t)[:8]
        alias = {"T": "%H:%M:%S", "F": "%Y-%m-%d", "R": "%H:%M", "D": "%m/%d/%y"}
        simple = {"m": (mo, "02d"), "d": (d, "02d"), "H": (h, "02d"), "M": (mi, "02d"), "S": (s, "02d"), "j": (yd, "03d"), "Y": (y, "d")}
        out, i = [], 0
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c != "%":
                out.append(c)
                continue
            c = fmt[i]
            i += 1
            if c in alias:
                out.append(self._strftime(alias[c], t))
            elif c in simple:
                out.append(calls.sx_format(*simple[c]))
            elif c == "y":
                out.append(calls.sx_format(y % 100, "02d"))
            elif c == "u":
                out.append(calls.sx_format(wd + 1, "d"))
            elif c == "w":
                out.append(calls.sx_format((wd + 1) % 7, "d"))
            elif c == "%":
                out.append("%")
            else:
                tt = tuple(calls.realise(x) for x in t)
                out.append(self._real.strftime("%" + c, tt))
        return calls.s_concat(out)


# ------------------------------------------------------------- state isolation
_SNAP = []


def _containers(v, depth=2):
    if isinstance(v, (dict, list, set)) and not isinstance(v, types.MappingProxyType):
        yield v
        if depth:
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                yield from _containers(x, depth - 1)


def snapshot():
    seen = set()
    _SNAP.clear()
    for m in FINDER.loaded:
        if m.__name__.split(".")[0] not in ("pyown",):
            continue
        ns = dict(vars(m))
        _SNAP.append(("ns", m, ns))
        for k, v in ns.items():
            if k.startswith("__"):
                continue
            for c in _containers(v):
                if id(c) not in seen:
                    seen.add(id(c))
                    _SNAP.append(("c", c, c.copy()))
            if isinstance(v, type) and v.__module__.split(".")[0] == "pyown" and id(v) not in seen:
                seen.add(id(v))
                cns = {n: x for n, x in vars(v).items() if not n.startswith("__")}
                if not isinstance(v, enum.EnumMeta):
                    _SNAP.append(("cls", v, cns))
                    for n, x in cns.items():
                        for c in _containers(x):
                            if id(c) not in seen:
                                seen.add(id(c))
                                _SNAP.append(("c", c, c.copy()))


def restore():
    for kind, o, s in _SNAP:
        if kind == "c":
            if isinstance(o, list):
                o[:] = s
            elif isinstance(o, dict):
                if len(o) != len(s) or any(k not in o or o[k] is not v for k, v in s.items()):
                    dict.clear(o)
                    dict.update(o, s)
            else:
                o.clear()
                o.update(s)
        elif kind == "ns":
            d = vars(o)
            if len(d) != len(s):
                for k in list(d):
                    if k not in s:
                        del d[k]
            for k, v in s.items():
                if d.get(k) is not v:
                    d[k] = v
        else:
            cur = vars(o)
            for k, v in s.items():
                if cur.get(k) is not v:
                    setattr(o, k, v)
            for k in [k for k in cur if not k.startswith("__") and k not in s and k != "_abc_impl"]:
                try:
                    delattr(o, k)
                except AttributeError:
                    pass
    for c in calls.CACHES:
        c.items.clear()


# --------------------------------------------------------------------- context
class SymCtx(Ctx):
    symbolic = True
    now_value = None
    dt = None

    def __init__(self):
        super().__init__({})
        self.decl = {}

    def _decl(self, name, kind, exprs):
        if name in self.decl:
            raise RuntimeError(f"duplicate input {name}")
        self.decl[name] = (kind, exprs)

    def int(self, name, lo, hi):
        w = V.width_for(lo, hi)
        e = z3.BitVec("i_" + name, w)
        self._decl(name, "int", e)
        E.define(z3.And(e >= lo, e <= hi))
        return V.SymInt(e, lo, hi)

    def flag(self, name):
        e = z3.BitVec("b_" + name, 1)
        self._decl(name, "flag", e)
        return V.SymBool(e == 1)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self._decl(name, "const", 0)
            return options[0]
        return options[V.realise_int(self.int(name, 0, len(options) - 1))]

    def _chars(self, name, n, alphabet, kind):
        m = V.mask_of(alphabet)
        out = []
        for i in range(n):
            nm = f"c_{name}_{i}"
            e = z3.BitVec(nm, 8)
            ch = V.Ch(e, nm, V.FULL)
            c = V.ch_in(ch, m)
            if c is not True:
                E.define(c.e)
            E.dom[nm] = m
            out.append(ch)
        self._decl(name, kind, [c.e for c in out])
        return out

    def text(self, name, n, alphabet=LATIN):
        if n == 0:
            return ""
        c = self._chars(name, n, alphabet, "text")
        return SymStr(c).mk(c)

    def digits(self, name, n, first=None):
        if n == 0:
            return ""
        c = self._chars(name, n, DIGITS, "text")
        if first is not None:
            m = V.mask_of(first)
            t = V.ch_in(c[0], m)
            if t is not True:
                E.define(t.e)
                E.dom[c[0].cid] &= m
        return SymStr(c).mk(c)

    def bytes(self, name, n, alphabet=BYTES):
        if n == 0:
            return b""
        c = self._chars(name, n, [ord(x) for x in alphabet], "bytes")
        return SymBytes(c)

    def assume(self, c):
        c = calls.sx_bool(c)
        if type(c) is V.SymBool:
            E.assume(c.e)
            if c.conj is not None:
                for ch, m in c.conj:
                    ch.refine(m)
        elif not c:
            raise PathAbort("assume")

    def check(self, c, msg):
        c = calls.sx_bool(c)
        ok, model = E.valid(V.bz(c))
        if not ok:
            self.violation = (plain(msg) if isinstance(msg, str) and type(msg) is str else "violation",
                              self.extract(model))
            raise Violated(msg)

    def fail(self, msg):
        self.check(False, msg)

    def observe(self, label, value):
        self.obs.append([label, value])

    def all_of(self, conds):
        return V.b_and([calls.sx_bool(c) for c in conds])

    def any_of(self, conds):
        return V.b_or([calls.sx_bool(c) for c in conds])

    def iff(self, a, b):
        a, b = calls.sx_bool(a), calls.sx_bool(b)
        return V.mkbool(z3.simplify(V.bz(a) == V.bz(b)))

    def implies(self, a, b):
        a, b = calls.sx_bool(a), calls.sx_bool(b)
        return V.b_or([V.b_not(a), b])

    def ite(self, c, a, b):
        c = calls.sx_bool(c)
        if type(c) is not V.SymBool:
            return a if c else b
        if V.is_int(a) and V.is_int(b):
            a, b = V.sint(a), V.sint(b)
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            w = V.width_for(lo, hi)
            return V.SymInt(z3.If(c.e, a.at(w), b.at(w)), lo, hi)
        return a if c else b

    def matches(self, pattern, s):
        import re
        from . import regex as R
        pat = re.compile(pattern)
        if type(s) is not SymStr:
            return pat.fullmatch(s) is not None
        ends = R.Lang(pat, s.c, 0, len(s.c)).seq(R.tree(pat), {0: True})
        return ends.get(len(s.c), False)

    def same(self, a, b):
        """deep equality as one formula, without branching"""
        return deep_eq(a, b)

    def set_random(self, name):
        state, drawn = {"i": 0}, []

        def tb(n=32):
            v = self.bytes(f"{name}{state['i']}", 32 if n is None else n)
            state["i"] += 1
            drawn.append(v)
            return v
        calls.RANDOM["source"] = tb
        return drawn

    def set_now(self, y, mo, d, h=0, mi=0, s=0):
        SymCtx.now_value = self.dt.datetime(y, mo, d, h, mi, s)

    # ---- models
    def extract(self, model):
        out = {}
        for name, (kind, x) in self.decl.items():
            if kind == "int":
                out[name] = model.eval(x, model_completion=True).as_signed_long()
            elif kind == "flag":
                out[name] = bool(model.eval(x, model_completion=True).as_long())
            elif kind == "const":
                out[name] = x
            else:
                tc = V.tchr if kind == "text" else chr
                out[name] = "".join(tc(model.eval(e, model_completion=True).as_long()) for e in x)
        return out


def deep_eq(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b):
            return False
        return V.b_and([deep_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r if type(r) is V.SymBool else bool(r)


def concretise(v, model):
    """Value of a symbolic observation under a model."""
    t = type(v)
    if t is SymStr:
        return "".join(V.tchr(c) if type(c) is int else
                       V.tchr(model.eval(c.e, model_completion=True).as_long()) for c in v.c)
    if t is SymBytes:
        return "b:" + "".join(chr(c) if type(c) is int else
                              chr(model.eval(c.e, model_completion=True).as_long()) for c in v.c)
    if t is V.SymInt:
        return model.eval(v.e, model_completion=True).as_signed_long()
    if t is V.SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is V.SymFloat:
        n = v.num
        n = concretise(n, model)
        return n / v.den
    if t in (list, tuple):
        return [concretise(x, model) for x in v]
    if t is dict:
        return {str(k): concretise(x, model) for k, x in v.items()}
    return plain(v)


# ------------------------------------------------------------------ exploration
def run_unit(fn, params, prefix=(), slice_s=20.0, sample_every=1, max_samples=6, max_paths=None,
             eager=True):
    """Explore one unit. Returns a result dictionary."""
    E.reset(prefix)
    t0 = time.perf_counter()
    violations, samples, reached, errors = [], [], {}, []
    npaths = 0
    seen = {}
    next_sample = 1
    timed_out = False
    calls.ENTERED.clear()
    gc.disable()
    while True:
        restore()
        SymCtx.now_value = None
        calls.RANDOM["source"] = None
        ctx = SymCtx()
        ctx.violation = None
        E.begin_path()
        aborted = None
        try:
            fn(ctx, **params)
        except Violated:
            pass
        except PathAbort as e:
            aborted = str(e)
        except Violation as e:   # raised natively by a harness
            ctx.violation = (str(e), ctx.extract(E.cur_model()))
        except Skip:
            aborted = "assume"
        except Steer as e:
            aborted = str(e)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            try:
                inp = ctx.extract(E.cur_model())
            except BaseException:
                inp = None
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename}:{f.lineno}" for f in tb[-6:]]
            ctx.violation = (f"unexpected {type(e).__name__}", inp)
            errors.append({"error": f"{type(e).__name__}: {_safe(e)}", "at": where, "inputs": inp})
        if ctx.violation is None and aborted is None:
            E.stats.paths += 1
            npaths += 1
            for k, v in ctx.reached.items():
                reached[k] = reached.get(k, 0) + v
            if npaths >= next_sample and len(samples) < max_samples:
                try:
                    m = E.cur_model()
                    samples.append({"inputs": ctx.extract(m),
                                    "obs": [[l, concretise(v, m)] for l, v in ctx.obs],
                                    "reached": sorted(ctx.reached)})
                except PathAbort:
                    pass
                next_sample = npaths * 3 + 1
        elif aborted is not None:
            E.stats.aborted += 1
            if aborted not in ("assume", "infeasible"):
                E.notes["abort:" + aborted] = E.notes.get("abort:" + aborted, 0) + 1
            if aborted == "step budget" and seen.get(aborted, 0) < 2:
                # may never end: the replay against the plain code decides
                seen[aborted] = seen.get(aborted, 0) + 1
                try:
                    E.active = True
                    violations.append({"msg": "does not finish", "inputs": ctx.extract(E.cur_model())})
                except (PathAbort, Steer):
                    pass
        else:
            seen[ctx.violation[0]] = seen.get(ctx.violation[0], 0) + 1
            if seen[ctx.violation[0]] <= 3:
                violations.append({"msg": ctx.violation[0], "inputs": ctx.violation[1]})
        E.active = False
        ctx.cleanup()
        if (npaths + E.stats.aborted) % 200 == 0:
            gc.collect()
        more = E.backtrack()
        if not more:
            break
        if time.perf_counter() - t0 > slice_s or (max_paths and npaths >= max_paths) or (violations and eager):
            timed_out = True
            break
    pend = []
    if timed_out:
        # the decision just flipped plus every flippable one
        cur = [[d.taken, E.const_of(d.cond)] for d in E.trail]
        pend = [cur] + E.pending_prefixes()
    gc.collect()
    return {
        "violations": violations, "errors": errors, "samples": samples, "reached": reached,
        "stats": E.stats.as_dict(), "notes": dict(E.notes), "pending": pend,
        "funcs": sorted(calls.ENTERED), "wall": time.perf_counter() - t0,
    }


def _safe(e):
    try:
        return " ".join(str(a) if type(a) is str else type(a).__name__ for a in e.args)[:300]
    except BaseException:
        return "?"
