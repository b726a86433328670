"""The harness context, in its concrete form (replay). sx.symctx has the
symbolic form with the same interface."""
import json


class Violation(SystemExit):     # of SystemExit: an asyncio task lets it through
    pass


class Skip(SystemExit):
    pass


DIGITS = "0123456789"
FRAME = "0123456789#*"
TAG = "0123456789#"
# Text characters: Latin-1, with ten C1 controls standing for characters beyond it (digits, numbers and blanks of
# other scripts, full-width signs, a letter, an astral character).
ALIAS = dict(zip(range(0x86, 0x90), "\u0663\uff11\u2460\u2167\u2028\u3000\uff03\uff0a\u0416\U0001f600"))
BYTES = "".join(map(chr, range(256)))
LATIN = "".join(ALIAS.get(i, chr(i)) for i in range(256))
ASCII = "".join(map(chr, range(128)))


class Ctx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.reached = {}
        self.obs = []
        self.loops = []
        self.verdict = None     # the first failed assumption or check, even if the code under test swallows it

    # ---- inputs
    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def flag(self, name):
        return bool(self.inputs.get(name, False))

    def choice(self, name, options):
        options = list(options)
        return options[self.inputs.get(name, 0)]

    def text(self, name, n, alphabet=LATIN):
        return self.inputs.get(name, alphabet[0] * n)

    def digits(self, name, n, first=None):
        return self.inputs.get(name, (first or "0")[0] + "0" * (n - 1) if n else "")

    def bytes(self, name, n, alphabet=BYTES):
        return self.inputs.get(name, alphabet[0] * n).encode("latin-1")

    # ---- logic
    def assume(self, c):
        if self.verdict is None and not c:
            self.verdict = Skip("assumption")
        if self.verdict is not None:
            raise self.verdict

    def check(self, c, msg):
        if self.verdict is None and not c:
            self.verdict = Violation(msg)
        if self.verdict is not None:
            raise self.verdict

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.obs.append([label, plain(value)])

    def all_of(self, conds):
        for c in conds:
            if not c:
                return False
        return True

    def any_of(self, conds):
        for c in conds:
            if c:
                return True
        return False

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        return a == b

    def matches(self, pattern, s):
        """full match, as a formula"""
        import re
        return re.fullmatch(pattern, s) is not None

    def count_of(self, sub, s):
        """overlapping occurrences"""
        return sum(s[i:i + len(sub)] == sub for i in range(len(s) - len(sub) + 1))

    # ---- environment
    def loop(self, **k):
        import asyncio
        from .vloop import VLoop
        lp = VLoop(**k)
        self.loops.append(lp)
        asyncio.set_event_loop(lp)
        return lp

    def set_random(self, name):
        """token_bytes() yields inputs name0, name1, ..."""
        import sys
        import secrets
        state, drawn = {"i": 0}, []

        def tb(n=32):
            n = 32 if n is None else n
            v = self.inputs.get(f"{name}{state['i']}", "\0" * n).encode("latin-1")
            state["i"] += 1
            drawn.append(v)
            return v

        self._patch_everywhere(secrets.token_bytes, tb)
        secrets.token_bytes = tb
        return drawn

    def set_now(self, y, mo, d, h=0, mi=0, s=0):
        import datetime
        import types
        real = datetime.datetime
        if not hasattr(real, "now_value"):
            class Fake(real):
                now_value = None

                @classmethod
                def now(cls, tz=None):
                    return cls.now_value

                @classmethod
                def today(cls):
                    return cls.now_value

            class FakeDate(datetime.date):
                @classmethod
                def today(cls):
                    return Fake.now_value.date()

            Fake.__name__ = "datetime"
            shim = types.ModuleType("datetime")
            shim.__dict__.update(vars(datetime))
            shim.datetime = Fake
            shim.date = FakeDate
            self._patch_everywhere(real, Fake)
            self._patch_everywhere(datetime.date, FakeDate)
            self._patch_everywhere(datetime, shim)
            Ctx._fake = Fake
        Ctx._fake.now_value = real(y, mo, d, h, mi, s)

    _fake = None

    def _patch_everywhere(self, old, new):
        import sys
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "pyown":
                for k, v in list(vars(m).items()):
                    if v is old or getattr(v, "_sx_orig", None) is old:
                        try:
                            new._sx_orig = old
                        except (AttributeError, TypeError):
                            pass
                        setattr(m, k, new)

    def cleanup(self):
        import asyncio
        for lp in self.loops:
            lp.dispose()
        self.loops = []
        asyncio.set_event_loop(None)


def plain(v):
    if v is None or type(v) in (bool, int, str, float):
        return v
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).decode("latin-1")
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, bool):
        return bool(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, BaseException):
        return "exc:" + type(v).__name__
    if isinstance(v, type):
        return "type:" + v.__name__
    return "obj:" + type(v).__name__
