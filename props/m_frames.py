"""Text <-> message: round trip, classification, rejection, equality."""
from pyown import exceptions
from pyown.exceptions import InvalidMessage, InvalidTag, OWNException, ParseError
from pyown.messages import (ACK, NACK, DimensionRequest, DimensionResponse, DimensionWriting,
                            GenericMessage, MessageType, NormalMessage, StatusRequest, parse_message)
from pyown.tags import Dimension, Value, What, Where, Who

FRAME = "0123456789#*"
TAGC = "0123456789#"
WHOS = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
        "1001", "1004", "1013", "1018"]
KW = "(?:" + "|".join(WHOS) + ")"
T = "[0-9#]*"
V1 = "(?:[0-9][0-9#]*)?"       # a value-like tag that does not start with '#'

# the documented grammar, as full-match patterns (no '##' inside, checked apart)
GRAMMAR = {
    "ACK": r"\*#\*1##",
    "NACK": r"\*#\*0##",
    "NormalMessage": rf"\*{KW}\*{T}\*{T}##",
    "StatusRequest": rf"\*#{KW}\*{T}##",
    "DimensionRequest": rf"\*#{KW}\*{T}\*{V1}##",
    "DimensionWriting": rf"\*#{KW}\*{T}\*#{T}(?:\*{T})*##",
    "DimensionResponse": rf"\*#{KW}\*{T}\*{V1}(?:\*{T})+##",
}
TYPES = {"ACK": "ACK", "NACK": "NACK", "NormalMessage": "NORMAL", "StatusRequest": "STATUS REQUEST",
         "DimensionRequest": "DIMENSION REQUEST", "DimensionWriting": "DIMENSION WRITING",
         "DimensionResponse": "DIMENSION RESPONSE", "GenericMessage": "GENERIC"}
CLASSES = {"ACK": ACK, "NACK": NACK, "NormalMessage": NormalMessage, "StatusRequest": StatusRequest,
           "DimensionRequest": DimensionRequest, "DimensionWriting": DimensionWriting,
           "DimensionResponse": DimensionResponse, "GenericMessage": GenericMessage}


def kind_of(m):
    """most specific documented class of a message"""
    if isinstance(m, DimensionResponse):
        return "DimensionResponse"
    for n, c in CLASSES.items():
        if isinstance(m, c):
            return n
    return "?"


def well_formed(ctx, n, name="s"):
    """a symbolic well-formed frame of n characters: '*' body '##', no other '##'"""
    body = ctx.text(name, n - 3, FRAME)
    s = "*" + body + "##"
    if n > 3:
        ctx.assume(body[-1:] != "#")
    for i in range(n - 4):
        ctx.assume(not_pair(ctx, body, i))
    return s


def not_pair(ctx, b, i):
    return ctx.any_of([b[i:i + 1] != "#", b[i + 1:i + 2] != "#"])


# ------------------------------------------------------------------ P01
def roundtrip_text(ctx, n):
    s = well_formed(ctx, n)
    m = parse_message(s)
    ctx.reach(kind_of(m))
    ctx.observe("message", m.message)
    ctx.check(m.message == s, "serialising a parsed frame gives back its text")
    ctx.check(str(m) == s, "str() of a parsed frame is its text")
    ctx.check(m.bytes == s.encode("ascii"), "bytes of a parsed frame are its text in ASCII")


def roundtrip_built(ctx, kind, whos, lens):
    who = Who(ctx.choice("who", whos))
    f = [ctx.text(f"f{i}", k, TAGC) for i, k in enumerate(lens)]
    for i, t in enumerate(f):
        if t:
            ctx.assume(t[-1:] != "#")
            for j in range(len(t) - 1):
                ctx.assume(not_pair(ctx, t, j))
    if kind == "NormalMessage":
        m = NormalMessage((who, What(f[0]), Where(f[1])))
        txt = f"*{who.value}*{f[0]}*{f[1]}##"
        fields = lambda x: [x.who.value, x.what.string, x.where.string]
        exp = [who.value, f[0], f[1]]
    elif kind == "StatusRequest":
        m = StatusRequest((who, Where(f[0])))
        txt = f"*#{who.value}*{f[0]}##"
        fields = lambda x: [x.who.value, x.where.string]
        exp = [who.value, f[0]]
    elif kind == "DimensionRequest":
        ctx.assume(f[1][:1] != "#")
        m = DimensionRequest((who, Where(f[0]), Dimension(f[1])))
        txt = f"*#{who.value}*{f[0]}*{f[1]}##"
        fields = lambda x: [x.who.value, x.where.string, x.dimension.string]
        exp = [who.value, f[0], f[1]]
    elif kind == "DimensionWriting":
        ctx.assume(f[1][:1] != "#")
        m = DimensionWriting((who, Where(f[0]), Dimension(f[1]), *[Value(v) for v in f[2:]]))
        txt = "*".join([f"*#{who.value}", f[0], "#" + f[1]] + f[2:]) + "##"
        fields = lambda x: [x.who.value, x.where.string, x.dimension.string] + [v.string for v in x.values]
        exp = [who.value, f[0], f[1]] + f[2:]
    elif kind == "DimensionResponse":
        ctx.assume(f[1][:1] != "#")
        m = DimensionResponse((who, Where(f[0]), Dimension(f[1]), *[Value(v) for v in f[2:]]))
        txt = "*".join([f"*#{who.value}", f[0], f[1]] + f[2:]) + "##"
        fields = lambda x: [x.who.value, x.where.string, x.dimension.string] + [v.string for v in x.values]
        exp = [who.value, f[0], f[1]] + f[2:]
    ctx.observe("text", m.message)
    ctx.check(m.message == txt, "a built message has the documented text")
    p = parse_message(m.message)
    ctx.check(kind_of(p) == kind, "a built message parses back to its own kind")
    ctx.check(ctx.same(fields(p), exp), "a built message parses back to its own fields")
    ctx.check(p == m, "a built message parses back to an equal message")
    ctx.reach("built " + kind)


def built_generic(ctx, lens):
    f = [ctx.text(f"f{i}", k, TAGC) for i, k in enumerate(lens)]
    for t in f:
        if t:
            ctx.assume(t[-1:] != "#")
            for j in range(len(t) - 1):
                ctx.assume(not_pair(ctx, t, j))
    m = GenericMessage(list(f))
    ctx.check(m.message == "*" + "*".join(f) + "##", "a generic message joins its tags")
    p = parse_message(m.message)
    ctx.check(p.message == m.message, "a generic message parses back to the same text")
    ctx.reach("built generic")


def many_values(ctx, kind, k):
    """messages with many values, part of them symbolic"""
    vals = [ctx.digits(f"v{i}", 2) if i % max(1, k // 12) == 0 or i == k - 1 else str(i) for i in range(k)]
    w = ctx.digits("w", 2)
    tags = (Who("13"), Where(w), Dimension("99"), *[Value(v) for v in vals])
    m = DimensionWriting(tags) if kind == "DimensionWriting" else DimensionResponse(tags)
    txt = "*".join(["*#13", w, ("#" if kind == "DimensionWriting" else "") + "99"] + vals) + "##"
    ctx.check(m.message == txt, "a built message has the documented text")
    p = parse_message(txt)
    ctx.check(kind_of(p) == kind, "and parses back to its own kind")
    ctx.check(len(p.values) == k, "with all its values")
    ctx.check(ctx.all_of([a.string == b for a, b in zip(p.values, vals)]), "in order")
    ctx.check(p.message == txt, "and prints the same text")
    ctx.reach("many values")


def long_tag(ctx, kind, pos, n, params=False):
    """a message whose tag at one position is long, or has many parameters"""
    k = {"NormalMessage": 2, "StatusRequest": 1, "DimensionRequest": 2}.get(kind, 4)
    f = [ctx.digits(f"f{i}", n if i == pos and not params else 1) for i in range(k)]
    if params:
        f[pos] = "#".join([f[pos]] + [ctx.digits(f"p{i}", 1 + i % 2) for i in range(n)])
    m = built(ctx, kind, "13", f)
    if kind == "NormalMessage":
        txt = "*".join(["*13"] + f) + "##"
    elif kind == "DimensionWriting":
        txt = "*".join(["*#13", f[0], "#" + f[1]] + f[2:]) + "##"
    else:
        txt = "*".join(["*#13"] + f) + "##"
    ctx.check(m.message == txt, "a built message has the documented text")
    ctx.check(m.bytes == txt.encode("ascii"), "and its bytes")
    p = parse_message(txt)
    ctx.check(kind_of(p) == kind, "a frame with a long tag gets its kind")
    fields(ctx, kind, p, txt)
    ctx.check(p.message == txt, "and keeps its text")
    ctx.check(p == m, "and equals the built message")
    ctx.reach("long tag")


LONG = [(k, i) for k, c in (("NormalMessage", 2), ("StatusRequest", 1), ("DimensionRequest", 2),
                            ("DimensionWriting", 4), ("DimensionResponse", 4)) for i in range(c)]


def p01(tier):
    for kind, pos in LONG:
        for n in (6, 14, 130) if tier == "quick" else (5, 6, 7, 9, 12, 20, 40, 80):
            yield "long_tag", {"kind": kind, "pos": pos, "n": n}
        for n in (2, 5, 12) if tier == "quick" else (2, 3, 4, 5, 6, 8, 12, 20, 40):
            yield "long_tag", {"kind": kind, "pos": pos, "n": n, "params": True}
    for kind in ("DimensionWriting", "DimensionResponse"):
        for k in (9, 12, 40, 300, 1100) if tier == "quick" else (9, 10, 11, 12, 13, 16, 17, 33, 40, 100, 300, 3000):
            yield "many_values", {"kind": kind, "k": k}
    top = 11 if tier == "quick" else 13
    for n in range(top, 2, -1):
        yield "roundtrip_text", {"n": n}
    w = ["1", "18", "1013"] if tier == "quick" else WHOS
    k = 3 if tier == "quick" else 4
    yield "roundtrip_built", {"kind": "NormalMessage", "whos": w, "lens": [k, k]}
    yield "roundtrip_built", {"kind": "NormalMessage", "whos": WHOS, "lens": [1, 1]}
    yield "roundtrip_built", {"kind": "NormalMessage", "whos": w, "lens": [0, 2]}
    yield "roundtrip_built", {"kind": "StatusRequest", "whos": w, "lens": [k + 1]}
    yield "roundtrip_built", {"kind": "StatusRequest", "whos": WHOS, "lens": [0]}
    yield "roundtrip_built", {"kind": "DimensionRequest", "whos": w, "lens": [2, k + 1]}
    yield "roundtrip_built", {"kind": "DimensionRequest", "whos": WHOS, "lens": [0, 2]}
    for kind in ("DimensionWriting", "DimensionResponse"):
        if kind == "DimensionWriting":
            yield "roundtrip_built", {"kind": kind, "whos": w, "lens": [1, 3]}
        yield "roundtrip_built", {"kind": kind, "whos": w, "lens": [1, 2, 2]}
        yield "roundtrip_built", {"kind": kind, "whos": w, "lens": [0, 2, 1, 0, 1]}
        yield "roundtrip_built", {"kind": kind, "whos": ["13"], "lens": [0, 2, 1, 1, 1, 1, 1, 1, 1, 1]}
    yield "built_generic", {"lens": [3]}
    yield "built_generic", {"lens": [2, 2]}
    yield "built_generic", {"lens": [1, 1, 1, 1]}


# ------------------------------------------------------------------ P02
def classify(ctx, n):
    s = well_formed(ctx, n)
    m = parse_message(s)
    k = kind_of(m)
    ctx.reach(k)
    ctx.observe("kind", k)
    others = ctx.any_of([ctx.matches(p, s) for p in GRAMMAR.values()])
    if k == "GenericMessage":
        ctx.check(not others, "a frame of a documented kind is not left generic")
        ctx.check(ctx.same(list(m.tags), s[1:-2].split("*")), "a generic message keeps its tags in order")
    else:
        ctx.check(ctx.matches(GRAMMAR[k], s), "the frame has the grammar of the kind it is given")
        fields(ctx, k, m, s)
    ctx.check(m.type == MessageType(TYPES[k]), "the type attribute names the kind")


def fields(ctx, k, m, s):
    """the accessors are the corresponding pieces of the text"""
    t = s[1:-2].split("*")
    if k in ("ACK", "NACK"):
        return
    if k == "NormalMessage":
        exp = [(m.who.value, t[0]), (m.what.string, t[1]), (m.where.string, t[2])]
    elif k == "StatusRequest":
        exp = [(m.who.value, t[0][1:]), (m.where.string, t[1])]
    elif k == "DimensionRequest":
        exp = [(m.who.value, t[0][1:]), (m.where.string, t[1]), (m.dimension.string, t[2])]
    else:
        d = t[2][1:] if k == "DimensionWriting" else t[2]
        exp = [(m.who.value, t[0][1:]), (m.where.string, t[1]), (m.dimension.string, d)]
        ctx.check(len(m.values) == len(t) - 3, "every value is kept")
        exp += [(v.string, x) for v, x in zip(m.values, t[3:])]
    ctx.check(ctx.all_of([ctx.same(a, b) for a, b in exp]), "the fields are the pieces of the frame, in order")


def shaped(ctx, kind, whos, lens):
    """longer frames of a fixed shape: who, then tags with the given lengths"""
    who = ctx.choice("who", whos)
    f = [ctx.text(f"f{i}", k, TAGC) for i, k in enumerate(lens)]
    for t in f:
        if t:
            ctx.assume(t[-1:] != "#")
            for j in range(len(t) - 1):
                ctx.assume(not_pair(ctx, t, j))
    if kind == "NormalMessage":
        s = "*".join(["*" + who] + f) + "##"
    elif kind == "DimensionWriting":
        if f[1]:
            ctx.assume(f[1][:1] != "#")
        s = "*".join(["*#" + who, f[0], "#" + f[1]] + f[2:]) + "##"
    elif kind == "StatusRequest":
        s = f"*#{who}*{f[0]}##"
    else:
        if f[1]:
            ctx.assume(f[1][:1] != "#")
        s = "*".join(["*#" + who] + f) + "##"
    m = parse_message(s)
    known = who in WHOS
    k = kind_of(m)
    ctx.check(k == (kind if known else "GenericMessage"), "a frame gets the documented kind")
    ctx.reach(k + " shaped")
    if known:
        fields(ctx, k, m, s)
    else:
        ctx.check(ctx.same(list(m.tags), s[1:-2].split("*")), "an unknown WHO keeps the tags")
    ctx.check(m.message == s, "text kept")


def p02(tier):
    for kind in ("DimensionWriting", "DimensionResponse"):
        for k in (40, 1100):
            yield "many_values", {"kind": kind, "k": k}
    for n in range(11 if tier == "quick" else 13, 2, -1):
        yield "classify", {"n": n}
    for kind, pos in LONG:
        yield "long_tag", {"kind": kind, "pos": pos, "n": 14 if tier == "quick" else 40}
        for n in (3, 6, 12) if tier == "quick" else (2, 3, 4, 5, 6, 8, 12, 20, 40):
            yield "long_tag", {"kind": kind, "pos": pos, "n": n, "params": True}
    ws = ["1", "25", "1004", "9", "26", "1002", "99"]
    k = 4 if tier == "quick" else 5
    yield "shaped", {"kind": "NormalMessage", "whos": ws, "lens": [k, k]}
    yield "shaped", {"kind": "NormalMessage", "whos": WHOS + ["9", "10", "11", "12", "19", "23", "26", "98", "1000"],
                     "lens": [1, 2]}
    yield "shaped", {"kind": "StatusRequest", "whos": ws, "lens": [k + 2]}
    yield "shaped", {"kind": "DimensionRequest", "whos": ws, "lens": [2, k + 1]}
    yield "shaped", {"kind": "DimensionRequest", "whos": WHOS, "lens": [0, 2]}
    yield "shaped", {"kind": "DimensionWriting", "whos": ws, "lens": [1, k]}
    yield "shaped", {"kind": "DimensionWriting", "whos": ws, "lens": [2, 3, 3]}
    yield "shaped", {"kind": "DimensionWriting", "whos": ["13"], "lens": [0, 2, 2, 2, 2, 3]}
    yield "shaped", {"kind": "DimensionResponse", "whos": ws, "lens": [2, 4, 3]}
    yield "shaped", {"kind": "DimensionResponse", "whos": WHOS, "lens": [1, 2, 1]}
    yield "shaped", {"kind": "DimensionResponse", "whos": ["13"], "lens": [0, 2, 2, 2, 2, 3, 2, 2, 2, 4]}


# ------------------------------------------------------------------ P03
ANY = r"[\s\S]*"
ALPHABETS = {"latin": "".join(map(chr, range(256))), "near": "0123456789#* a\n"}


def reject(ctx, n, alpha):
    s = ctx.text("s", n, ALPHABETS[alpha])
    # texts in which '###' makes the end of the frame ambiguous are left out
    ctx.assume(not ctx.matches(ANY + "###" + ANY, s))
    good = ctx.all_of([ctx.matches(r"\s*\*[0-9#*]*##\s*", s), not ctx.matches(ANY + "##" + ANY + "##" + ANY, s)])
    try:
        m = parse_message(s)
    except ParseError:
        ctx.reach("rejected")
        ctx.check(not good, "a well-formed frame is accepted")
        return
    except Exception as e:
        ctx.fail(f"parsing raises something else than the library's parse error")
    ctx.reach("accepted")
    ctx.check(good, "a malformed text is rejected")
    ctx.observe("m", m.message)


SPOTS = [0, 1, 2, 9, 16, 31, 40, 63, 64, 100, 127, 128, 255, 256, 499]


def long_reject(ctx, n, where):
    """a long frame with one arbitrary character at one of many places"""
    at = SPOTS[ctx.int("at", 0, len(SPOTS) - 1)]
    c = ctx.text("c", 1, ALPHABETS["latin"])
    ctx.assume(c != "#")                      # a separator may end the frame or start another tag
    ctx.assume(at < n)
    body = "1" * at + c + "2" * (n - at - 1)
    s = {"what": "*1*" + body + "*12##", "where": "*1*1*" + body + "##", "value": "*#1*12*1*" + body + "##",
         "generic": "*99*" + body + "##"}[where]
    good = ctx.matches("[0-9*]", c)
    try:
        m = parse_message(s)
    except ParseError:
        ctx.check(not good, "a long frame is accepted")
        ctx.reach("long rejected")
        return
    ctx.check(good, "a long malformed text is rejected")
    ctx.check(m.message == s, "and kept unchanged otherwise")
    ctx.reach("long accepted")


def p03(tier):
    for where in ("what", "where", "value", "generic"):
        for n in (70, 300) if tier == "quick" else (70, 300, 500):
            yield "long_reject", {"n": n, "where": where}
    for n in range(0, 8 if tier == "quick" else 10):
        yield "reject", {"n": n, "alpha": "latin"}
    for n in (8, 9) if tier == "quick" else (10, 11, 12):
        yield "reject", {"n": n, "alpha": "near"}


# ------------------------------------------------------------------ P24
def equality(ctx, n):
    a, b = well_formed(ctx, n, "a"), well_formed(ctx, n, "b")
    x, y = parse_message(a), parse_message(b)
    eq = x == y
    ctx.check(ctx.iff(eq, a == b), "two parsed messages are equal exactly when their texts are")
    ctx.check(ctx.iff(x != y, a != b), "two parsed messages differ exactly when their texts do")
    ctx.reach("compared")


def hashing(ctx, n):
    a = well_formed(ctx, n, "a")
    x, y = parse_message(a), parse_message(a)
    ctx.check(x == y, "parsing is a function of the text")
    ctx.check(hash(x) == hash(y), "equal messages have equal hashes")
    ctx.check(len({x, y}) == 1, "equal messages are one set member")
    ctx.check((x == a) in (True, False), "comparison with a string answers")
    ctx.reach("hashed")


def private_tags(ctx, n):
    a = well_formed(ctx, n, "a")
    x = parse_message(a)
    t = x.tags
    if isinstance(t, list):
        for i in range(len(t)):
            t[i] = "999"
        t.append("1")
        ctx.reach("tags edited")
    ctx.check(x.message == a, "editing the returned tags does not change the message")
    ctx.check(ctx.same([str(v) for v in x.tags], [str(v) for v in parse_message(a).tags]), "tags are a copy")


def equality_lens(ctx, n, m):
    a, b = well_formed(ctx, n, "a"), well_formed(ctx, m, "b")
    x, y = parse_message(a), parse_message(b)
    ctx.check(x != y, "messages of different texts differ")
    ctx.check(not (x == y), "messages of different texts are not equal")
    ctx.reach("compared")


def built(ctx, kind, who, f):
    if kind == "NormalMessage":
        return NormalMessage((Who(who), What(f[0]), Where(f[1])))
    if kind == "StatusRequest":
        return StatusRequest((Who(who), Where(f[0])))
    c = CLASSES[kind]
    return c((Who(who), Where(f[0]), Dimension(f[1]), *[Value(v) for v in f[2:]]))


def equality_built(ctx, kind, lens, lens2, alpha="0123456789"):
    """two messages of one kind built from symbolic fields"""
    f = [ctx.text(f"f{i}", k, alpha) for i, k in enumerate(lens)]
    g = [ctx.text(f"g{i}", k, alpha) for i, k in enumerate(lens2)]
    w1, w2 = ctx.choice("w1", ["1", "13"]), ctx.choice("w2", ["1", "13"])
    x, y = built(ctx, kind, w1, f), built(ctx, kind, w2, g)
    want = ctx.all_of([w1 == w2, len(f) == len(g), ctx.same(f, g)])
    ctx.check(ctx.iff(x == y, want), "two messages are equal exactly when all their fields are")
    ctx.check(ctx.iff(y == x, want), "equality is symmetric")
    ctx.reach("built compared")


KINDS_FOR = {1: ["StatusRequest", "GenericMessage"], 2: ["NormalMessage", "DimensionRequest", "GenericMessage"],
             3: ["DimensionWriting", "DimensionResponse", "GenericMessage"],
             4: ["DimensionWriting", "DimensionResponse", "GenericMessage"]}


def equality_kinds(ctx, lens):
    """messages of different kinds made of the same tags, in either order"""
    f = [ctx.text(f"f{i}", k, "0123456789") for i, k in enumerate(lens)]
    kinds = KINDS_FOR[len(lens)]
    a = ctx.choice("a", kinds)
    b = ctx.choice("b", [k for k in kinds if k != a])
    w = ctx.choice("w", ["1", "13"])

    def make(kind):
        return GenericMessage([w, *f]) if kind == "GenericMessage" else built(ctx, kind, w, f)
    x, y = make(a), make(b)
    ctx.check(not (x == y), "messages of different kinds are never equal")
    ctx.check(x != y, "and differ")
    ctx.check(x == make(a) and not (x != make(a)), "the same kind with the same fields is equal")
    ctx.check(not (x == x.message) and not (x == list(x.tags)), "nor is a message equal to its text or its tags")
    ctx.reach("kinds compared")


def hashing_built(ctx, kind, lens):
    f = [ctx.text(f"f{i}", k, "0123456789") for i, k in enumerate(lens)]
    x, y = built(ctx, kind, "1", f), parse_message(built(ctx, kind, "1", f).message)
    ctx.check(x == y, "a message equals its parsed text")
    ctx.check(hash(x) == hash(y), "equal messages have equal hashes")
    ctx.reach("hashed")


def hashing_many(ctx, kind, k):
    """messages with many values, two of them symbolic"""
    f = ["", "9", ctx.digits("v", 1)] + [str(i) for i in range(k - 2)] + [ctx.digits("u", 1)]
    x, y = built(ctx, kind, "13", f), parse_message(built(ctx, kind, "13", f).message)
    ctx.check(x == y and built(ctx, kind, "13", f) == x, "a message equals its parsed text")
    ctx.check(hash(x) == hash(y) and hash(built(ctx, kind, "13", f)) == hash(x), "equal messages have equal hashes")
    ctx.reach("hashed many")


def enum_tags(kind):
    """the tags the items command with, all of which are members of enumerations"""
    from pyown.items.automation.automation import WhatAutomation
    from pyown.items.camera.camera import WhatCamera
    from pyown.items.energy.enums import DimensionEnergy, WhatEnergy
    from pyown.items.gateway.gateway import WhatGateway
    from pyown.items.lighting.base import WhatLight
    return {"light": WhatLight, "automation": WhatAutomation, "camera": WhatCamera, "gateway": WhatGateway,
            "energy": WhatEnergy, "measure": DimensionEnergy}[kind]


def hashing_items(ctx, kind):
    """messages made of the tags the items use, against the same messages parsed"""
    e = ctx.choice("tag", list(enum_tags(kind)))
    w, v = ctx.choice("w", ["11", "", "#3", "0114#4#01"]), ctx.choice("v", ["0", "07"])
    who = Who("1")
    if kind in ("gateway", "measure"):
        pairs = [(DimensionRequest((who, Where(w), e)), f"*#1*{w}*{e.value}##"),
                 (DimensionWriting((who, Where(w), e, Value(v))), f"*#1*{w}*#{e.value}*{v}##"),
                 (DimensionResponse((who, Where(w), e, Value(v))), f"*#1*{w}*{e.value}*{v}##")]
    else:
        pairs = [(NormalMessage((who, e, Where(w))), f"*1*{e.value}*{w}##"),
                 (NormalMessage((who, What(v), Where(w))), f"*1*{v}*{w}##")]
    for m, txt in pairs:
        p = parse_message(txt)
        ctx.check(m.message == txt, "a message made of the tags of an item has the documented text")
        ctx.check(m == p and p == m, "it equals the message parsed from its text")
        ctx.check(not (m != p), "and does not differ from it")
        ctx.check(hash(m) == hash(p), "and hashes alike")
    ctx.reach("hashed items")


def p24(tier):
    q = tier == "quick"
    for lens in ([2], [1, 2], [1, 1, 1], [1, 1, 2, 1]):
        yield "equality_kinds", {"lens": lens}
    for kind in ("DimensionWriting", "DimensionResponse"):
        for k in (2, 8, 40) if q else (2, 3, 4, 5, 8, 16, 40, 300):
            yield "hashing_many", {"kind": kind, "k": k}
    for kind in ("light", "automation", "camera", "gateway", "energy", "measure"):
        yield "hashing_items", {"kind": kind}
    for kind, pos in LONG:
        lens = [9 if i == pos else 1 for i in range({"NormalMessage": 2, "StatusRequest": 1, "DimensionRequest": 2}.get(kind, 4))]
        yield "equality_built", {"kind": kind, "lens": lens, "lens2": lens}
    for n in range(3, 8 if q else 9):
        yield "equality", {"n": n}
    for n in range(3, 7 if q else 8):
        yield "hashing", {"n": n}
    for n in range(3, 9 if q else 10):
        yield "private_tags", {"n": n}
    for n, m in ((4, 5), (5, 6), (6, 7)) if q else ((4, 5), (5, 6), (6, 7), (5, 7), (7, 8), (6, 8)):
        yield "equality_lens", {"n": n, "m": m}
    for kind, lens in (("NormalMessage", [3, 3]), ("StatusRequest", [4]), ("DimensionRequest", [2, 3]),
                       ("DimensionWriting", [2, 2, 2, 1]), ("DimensionResponse", [2, 2, 2, 1])):
        yield "equality_built", {"kind": kind, "lens": lens, "lens2": lens}
        if len(lens) > 3:
            yield "equality_built", {"kind": kind, "lens": lens, "lens2": lens[:-1]}
    for kind, lens in (("NormalMessage", [1, 1]), ("StatusRequest", [2]), ("DimensionRequest", [1, 1]),
                       ("DimensionWriting", [1, 1, 1]), ("DimensionResponse", [1, 1, 1])):
        yield "hashing_built", {"kind": kind, "lens": lens}


# ------------------------------------------------------------------ P27
def error_text(ctx, n, alpha):
    """the error of a rejected text names the text"""
    s = ctx.text("s", n, ALPHABETS[alpha])
    try:
        parse_message(s)
    except Exception as e:
        ctx.check(isinstance(e, ParseError) and isinstance(e, OWNException), "a rejected text raises the library's parse error")
        if isinstance(e, InvalidMessage):
            ctx.check(e.message.strip() == s.strip(), "which carries the rejected text")
            ctx.check(e.message in str(e), "and shows it")
            ctx.reach("invalid message")
        else:
            ctx.check(isinstance(e, InvalidTag), "or the library's tag error")


TAGS = {"What": What, "Where": Where, "Dimension": Dimension, "Value": Value}


def error_tag(ctx, kind, n, alpha):
    s = ctx.text("s", n, ALPHABETS[alpha])
    try:
        TAGS[kind](s)
    except Exception as e:
        ctx.check(isinstance(e, InvalidTag) and isinstance(e, ParseError), "a rejected tag raises the library's tag error")
        ctx.check(e.tag == s, "which carries the rejected tag")
        ctx.check(s in str(e), "and shows it")
        ctx.reach("invalid tag " + kind)


def error_tags(ctx, lens):
    """the error made from a list of tags shows the frame they would have been"""
    t = [ctx.text(f"t{i}", k, "0123456789#") for i, k in enumerate(lens)]
    e = InvalidMessage(list(t))
    ctx.check(e.message == "*" + "*".join(t) + "##", "the frame of the tags")
    ctx.check(e.message in str(e), "is shown")
    d = ctx.bytes("d", 3)
    x = exceptions.InvalidData(d)
    ctx.check(x.data == d and d.hex() in str(x), "invalid data is carried and shown in hexadecimal")
    ctx.reach("error of tags")


def hierarchy(ctx):
    name = ctx.choice("name", ["ParseError", "InvalidData", "InvalidMessage", "InvalidTag", "InvalidSession",
                               "InvalidAuthentication", "ResponseError"])
    c = getattr(exceptions, name)
    ctx.check(issubclass(c, OWNException) and issubclass(c, Exception), "every error is an OWNException")
    ctx.check(issubclass(c, ParseError) == (name in ("ParseError", "InvalidData", "InvalidMessage", "InvalidTag")),
              "exactly the errors about data are parse errors")
    ctx.reach("hierarchy")


def p27(tier):
    q = tier == "quick"
    for n in range(0, 5 if q else 7):
        yield "error_text", {"n": n, "alpha": "latin"}
    for n in (6, 7) if q else (7, 8, 9):
        yield "error_text", {"n": n, "alpha": "near"}
    for k in TAGS:
        for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            yield "error_tag", {"kind": k, "n": n, "alpha": "latin"}
    for lens in ([], [2], [1, 0, 2], [1, 1, 1, 1]):
        yield "error_tags", {"lens": lens}
    yield "hierarchy", {}


SPEC = {
    "P27": {"cases": p27, "bounds": "every rejected text of 0..4 (thorough 6) characters of Latin-1 or ten beyond it and of 6..7 (thorough 9) over "
            "the frame alphabet plus a blank, a newline and a letter; every rejected tag of 1..3 (thorough 5) characters; lists of up to four tags",
            "outside": "longer texts; the wording before the text",
            "reach": ["invalid message", "error of tags", "hierarchy"] + ["invalid tag " + k for k in TAGS]},
    "P01": {"cases": p01, "bounds": "every well-formed frame text of 3..11 characters (thorough 13) over digits, '#', '*'; "
            "built messages of every kind with symbolic tag contents of the listed lengths (up to 10 tags), and "
            "dimension messages of up to 1100 (thorough 3000) values, part of them symbolic, and of every kind with one tag of "
            "6, 14 or 130 (thorough up to 80) digits or 2, 5 or 12 (thorough up to 40) parameters",
            "outside": "longer texts; frames whose last tag ends in '#' (the end of such a frame is ambiguous)",
            "reach": list(CLASSES) + ["built " + k for k in ("NormalMessage", "StatusRequest", "DimensionRequest",
                                                             "DimensionWriting", "DimensionResponse")]},
    "P02": {"cases": p02, "bounds": "every well-formed frame text of 3..11 characters (thorough 13); longer frames of each "
            "documented shape with symbolic tags, known and unknown WHO values, tags of up to 12 (thorough 40) parameters, and dimension frames of up to 1100 values",
            "outside": "longer texts; frames whose last tag ends in '#'", "reach": list(CLASSES)},
    "P03": {"cases": p03, "bounds": "every text of 0..7 (thorough 9) characters over all of Latin-1 but ten control characters, plus ten characters "
            "beyond it (decimal, full-width, circled and roman digits, line separator, wide space, full-width # and *, a letter, an emoji); 8..9 (thorough 12) over "
            "the frame alphabet plus a blank, a newline and a letter; frames with a tag of 70 or 300 (thorough 500) characters, any one of them at 15 places",
            "outside": "other longer texts, other characters above U+00FF, texts containing '###'",
            "reach": ["rejected", "accepted", "long rejected", "long accepted"]},
    "P24": {"cases": p24, "bounds": "every pair of well-formed frames of equal length 3..7 (thorough 8), of lengths differing by "
            "one up to 7; pairs of messages of each kind, and of different kinds from the same fields, built from symbolic digit fields; hashes on frames up to 6 "
            "(thorough 7) characters, on built messages with one-digit fields and up to 40 (thorough 300) values, and on messages made of every tag the items use",
            "outside": "longer frames", "reach": ["compared", "hashed", "tags edited", "built compared", "hashed items", "kinds compared", "hashed many"]},
}
