"""Tags: validity, accessors, parameters, comparison; kinds of address."""
from pyown.exceptions import InvalidTag
from pyown.tags import Dimension, Value, What, Where, Who
from pyown.tags.where import WhereType

from props.common import DIGITS, TAGC

CLASSES = {"What": What, "Where": Where, "Dimension": Dimension,
           "Value": Value}
PARAM = ("What", "Where", "Dimension")
WHOS = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
        "1001", "1004", "1013", "1018"]


# ------------------------------------------------------------------ P05
def validity(ctx, cls, n):
    """any text at all"""
    s = ctx.text("s", n)
    ok = ctx.matches("[0-9#]*", s)
    try:
        t = CLASSES[cls](s)
    except InvalidTag:
        ctx.check(not ok, "a text of digits and # is a tag")
        ctx.reach("rejected")
        return
    ctx.check(ok, "only digits and # make a tag")
    ctx.check(t.string == s and str(t) == s, "the text is kept")
    ctx.reach("accepted")


SPOTS = [0, 1, 2, 9, 16, 31, 40, 63, 64, 100, 127, 128, 255, 256, 299]


def long_validity(ctx, cls, n):
    """a long text with one arbitrary character at one of many places"""
    at = SPOTS[ctx.int("at", 0, len(SPOTS) - 1)]
    c = ctx.text("c", 1)
    ctx.assume(at < n)
    s = "1" * at + c + "2" * (n - at - 1)
    ok = ctx.matches("[0-9#]", c)
    try:
        t = CLASSES[cls](s)
    except InvalidTag:
        ctx.check(not ok, "a text of digits and # is a tag")
        ctx.reach("long rejected")
        return
    ctx.check(ok, "only digits and # make a tag")
    ctx.check(t.string == s and str(t) == s, "the text is kept")
    ctx.reach("long accepted")


def who_validity(ctx, n):
    s = ctx.text("s", n, DIGITS + "#")
    try:
        w = Who(s)
    except ValueError:
        ctx.check(not ctx.any_of([s == x for x in WHOS]), "every documented subsystem exists")
        ctx.reach("unknown who")
        return
    ctx.check(ctx.any_of([s == x for x in WHOS]) and w.string == s and str(w) == s, "a subsystem is its number")
    ctx.reach("known who")


def numbers(ctx, cls, lo, hi):
    """integers stand for their decimal text"""
    x = ctx.int("x", lo, hi)
    try:
        t = CLASSES[cls](x)
    except InvalidTag:
        ctx.check(x < 0, "a number is a tag")
        ctx.reach("negative")
        return
    ctx.check(x >= 0, "a negative number is not a tag")
    ctx.check(t.string == f"{x}", "written in decimal")
    ctx.check(t == x, "and equal to it")
    y = ctx.int("y", lo, hi)
    ctx.check(ctx.iff(t == y, x == y), "and only to it")
    ctx.reach("number")


def number_text(ctx, cls, n):
    """a text against a number: equal exactly when the text is the number in decimal"""
    s = ctx.text("s", n, TAGC)
    y = ctx.int("y", 0, 10 ** (n + 1))
    t = CLASSES[cls](s)
    ctx.check(ctx.iff(t == y, s == f"{y}"), "a tag equals a number exactly when its text is the number in decimal")
    ctx.reach("text and number")


def many_parameters(ctx, cls, k):
    """a tag with many parameters"""
    par = [ctx.digits(f"p{i}", 1 + i % 2) for i in range(k)]
    v, q = ctx.digits("v", 1), ctx.digits("q", 2)
    s = "#".join([v] + par)
    t = CLASSES[cls](s)
    ctx.check(ctx.all_of([t.tag == v, len(t.parameters) == k, ctx.same(list(t.parameters), par)]), "value and parameters apart")
    u = t.with_parameter(q)
    ctx.check(u.string == s + "#" + q and t.string == s, "a further parameter is appended and changes nothing else")
    ctx.check(len(u.parameters) == k + 1 and ctx.same(list(u.parameters), par + [q]), "it is the last one")
    for i in range(3):
        u = u.with_parameter(i)
    ctx.check(u.string == s + "#" + q + "#0#1#2", "again and again")
    ctx.reach("many parameters")


def split(ctx, cls, n):
    """value and parameters partition the text"""
    s = ctx.text("s", n, TAGC)
    t = CLASSES[cls](s)
    tag, par = t.tag, t.parameters
    if cls in PARAM:
        ctx.check(par is not None, "a list of parameters")
        ctx.check("#".join([tag] + list(par)) == s, "the value and the parameters, joined, are the text")
        ctx.check(ctx.all_of(["#" not in x for x in [tag] + list(par)]), "no separator is left inside")
        ctx.check(len(par) == ctx.count_of("#", s), "one parameter per separator")
    else:
        ctx.check(par is None, "no parameters")
        ctx.check(tag == s[1:] if s[:1] == "#" else tag == s, "the value without its prefix")
    ctx.reach("split")


def with_parameter(ctx, cls, n, k, number):
    s = ctx.text("s", n, TAGC)
    t = CLASSES[cls](s)
    p = ctx.int("p", 0, 10 ** k - 1) if number else ctx.digits("p", k)
    u = t.with_parameter(p)
    ctx.check(u.string == s + "#" + f"{p}", "the parameter is appended")
    ctx.check(t.string == s, "the original is unchanged")
    if cls in PARAM:
        ctx.check(isinstance(u, CLASSES[cls]), "the kind of tag is kept")
        ctx.check(len(u.parameters) == len(t.parameters) + 1, "one more parameter")
        ctx.check(u.tag == t.tag, "the value is unchanged")
    ctx.check(u.parameters[-1] == f"{p}", "the last parameter is the one given")
    ctx.reach("with parameter")


def bad_parameter(ctx, cls, k):
    p = ctx.text("p", k)
    t = CLASSES[cls]("12")
    try:
        u = t.with_parameter(p)
    except InvalidTag:
        ctx.check(not ctx.matches("[0-9#]*", p), "a valid parameter is accepted")
        ctx.reach("bad parameter")
        return
    ctx.check(ctx.matches("[0-9#]*", p), "a parameter that is not a tag is refused")
    ctx.check(u.string == "12#" + p, "and appended otherwise")


def comparison(ctx, a, b, n, m):
    s, u = ctx.text("s", n, TAGC), ctx.text("u", m, TAGC)
    x, y = CLASSES[a](s), CLASSES[b](u)
    same = s == u
    ctx.check(ctx.iff(x == y, same), "tags are equal exactly when their texts are")
    ctx.check(ctx.iff(y == x, same), "in either order")
    ctx.check(ctx.iff(x != y, not same), "and different otherwise")
    ctx.check(ctx.iff(x == u, same), "a tag equals its text and no other")
    if same:
        ctx.check(hash(x) == hash(y), "equal tags have equal hashes")
        ctx.check(hash(x) == hash(u), "also with their text")
        ctx.reach("equal")
    else:
        ctx.reach("different")


def enum_tags(ctx, kind):
    """members of the enumerations of commands are tags as well"""
    from pyown.items.automation import WhatAutomation
    from pyown.items.camera import WhatCamera
    from pyown.items.energy.enums import DimensionEnergy, WhatEnergy
    from pyown.items.gateway import WhatGateway
    from pyown.items.lighting.base import WhatLight
    cls = {"automation": WhatAutomation, "camera": WhatCamera, "gateway": WhatGateway, "light": WhatLight,
           "energy": WhatEnergy, "dimension": DimensionEnergy}[kind]
    base = Dimension if kind == "dimension" else What
    m = ctx.choice("m", list(cls))
    ctx.check(str(m) == m.value and m.string == m.value and m.tag == m.value and m.parameters == [], "its number")
    ctx.check(base(m.value) == m and hash(base(m.value)) == hash(m), "equal to the same plain tag")
    p = ctx.int("p", 0, 999) if ctx.flag("number") else ctx.digits("q", 2)
    u = m.with_parameter(p)
    ctx.check(u.string == m.value + "#" + f"{p}" and u.tag == m.value, "the parameter is appended")
    ctx.check(isinstance(u, base), "and it is the same kind of tag")
    ctx.check(m.string == m.value, "the constant is unchanged")
    ctx.reach("enum")


def p05(tier):
    q = tier == "quick"
    for c in CLASSES:
        yield "long_validity", {"cls": c, "n": 300}
        for n in (0, 1, 2, 3) if q else range(0, 8):
            yield "validity", {"cls": c, "n": n}
        for n in range(0, 5 if q else 8):
            yield "split", {"cls": c, "n": n}
        for n in (1, 2, 3) if q else (0, 1, 2, 3, 4):
            yield "number_text", {"cls": c, "n": n}
        if c in PARAM:
            for k in (3, 6, 20) if q else (3, 4, 5, 6, 7, 8, 12, 20, 64):
                yield "many_parameters", {"cls": c, "k": k}
        yield "numbers", {"cls": c, "lo": -20, "hi": 1200 if q else 120000}
        for n in (0, 2, 3) if q else range(0, 6):
            for num in (False, True):
                yield "with_parameter", {"cls": c, "n": n, "k": 2 if q else 3, "number": num}
        for k in (1, 2) if q else (1, 2, 3):
            yield "bad_parameter", {"cls": c, "k": k}
    for n in range(0, 5 if q else 6):
        yield "who_validity", {"n": n}
    for a, b in (("Where", "Where"), ("What", "Value"), ("Where", "Dimension"), ("Value", "Value")):
        for n, m in ((0, 0), (1, 1), (2, 2), (3, 3), (2, 3), (0, 1)) if q else [(i, j) for i in range(6) for j in range(i, 6)]:
            yield "comparison", {"a": a, "b": b, "n": n, "m": m}
    for k in ("automation", "camera", "gateway", "light", "energy", "dimension"):
        yield "enum_tags", {"kind": k}


# ------------------------------------------------------------------ P23
AMBIENT = "[1-9]|00|100"
POINT = "00(?:0[1-9]|1[0-5])|[1-9][1-9]|10(?:0[1-9]|1[0-5])|0[1-9]1[0-5]"


def where_kind(ctx, n):
    s = ctx.text("s", n, TAGC)
    general, ambient = s == "0", ctx.matches(AMBIENT, s)
    point, group = ctx.matches(POINT, s), ctx.matches("#[0-9]+", s)
    ctx.assume(ctx.any_of([general, ambient, point, group]))
    k = Where(s).type
    ctx.check(ctx.iff(k is WhereType.GENERAL, general), "0 is everything")
    ctx.check(ctx.iff(k is WhereType.AMBIENT, ambient), "1..9, 00 and 100 are ambients")
    ctx.check(ctx.iff(k is WhereType.LIGHT_POINT, point), "an ambient and a point are one device")
    ctx.check(ctx.iff(k is WhereType.GROUP, group), "# and a number are a group")
    ctx.reach("kind " + k.name)


def p23(tier):
    for n in range(1, 6 if tier == "quick" else 10):
        yield "where_kind", {"n": n}


# ------------------------------------------------------------------ P28
NAMES = ["SCENE", "LIGHTING", "AUTOMATION", "LOAD_CONTROL", "THERMOREGULATION", "BURGLAR_ALARM", "DOOR_ENTRY_SYSTEM",
         "VIDEO_DOOR_ENTRY", "AUXILIARY", "GATEWAY", "ACTUATORS_LOCKS", "CEN_1", "SOUND_DIFFUSION_1", "MH200N_SCENE",
         "ENERGY_MANAGEMENT", "SOUND_DIFFUSION_2", "LIGHTING_MANAGEMENT", "CEN_2", "AUTOMATION_DIAGNOSTICS",
         "THERMOREGULATION_DIAGNOSTICS", "DEVICE_DIAGNOSTICS", "ENERGY_DIAGNOSTICS"]


def described(ctx, n):
    """any text of n characters as a subsystem"""
    s = ctx.text("s", n)
    known = ctx.any_of([s == x for x in WHOS])
    try:
        w = Who(s)
    except ValueError:
        ctx.check(not known, "every documented subsystem exists")
        ctx.reach("no subsystem")
        return
    ctx.check(known, "only documented subsystems exist")
    ctx.check(w.string == s and str(w) == s and f"{w}" == s and w.tag == s and w.parameters is None, "a tag with that text")
    ctx.check(w == s and w == What(s) and hash(w) == hash(s), "equal to its number")
    i = [k for k, x in enumerate(WHOS) if s == x][0]
    ctx.check(w is getattr(Who, NAMES[i]), "the documented constant is that subsystem")
    ctx.check(isinstance(w.name, str) and w.name.strip() != "", "with a description")
    ctx.reach("subsystem")


def distinct(ctx):
    """two subsystems"""
    a = Who(WHOS[ctx.int("a", 0, len(WHOS) - 1)])
    b = Who(WHOS[ctx.int("b", 0, len(WHOS) - 1)])
    ctx.check((a is b) == (a.name == b.name), "no two subsystems share a description")
    ctx.check((a is b) == (a == b), "equal only to itself")
    ctx.reach("same" if a is b else "two")


def in_messages(ctx, n, kind):
    """the subsystem of a message is the one its number names"""
    from pyown.messages import DimensionRequest, NormalMessage, StatusRequest, parse_message
    s = ctx.text("s", n, DIGITS)
    w = ctx.int("w", 0, len(WHOS) - 1)
    ctx.assume(s == WHOS[w])
    m = parse_message({"n": "*", "s": "*#", "d": "*#"}[kind] + s + {"n": "*1*11##", "s": "*11##", "d": "*11*1##"}[kind])
    ctx.check(m.who is Who(s), "the subsystem of the message")
    own = {"n": lambda x: NormalMessage((x, What("1"), Where("11"))), "s": lambda x: StatusRequest((x, Where("11"))),
           "d": lambda x: DimensionRequest((x, Where("11"), Dimension("1")))}[kind](getattr(Who, NAMES[w]))
    ctx.check(own.message == m.message and own == m, "and of one built with the constant")
    ctx.reach("message")


def p28(tier):
    for n in range(0, 6 if tier == "quick" else 8):
        yield "described", {"n": n}
    yield "distinct", {}
    for n in (1, 2, 4):
        for k in "nsd":
            yield "in_messages", {"n": n, "kind": k}


SPEC = {
    "P28": {"cases": p28, "bounds": "every text of 0..5 (thorough 7) characters of Latin-1 or ten listed ones beyond it; every pair of the 22 subsystems; "
            "each of them in a normal message, a status request and a dimension request",
            "outside": "longer texts, none of which is a documented subsystem", "reach": ["subsystem", "no subsystem", "same", "two", "message"]},
    "P05": {"cases": p05, "bounds": "every text of 0..3 (thorough 7) characters of Latin-1 or ten listed ones beyond it, texts of 300 characters with any one character at 15 places, every tag of 0..4 (thorough 7) "
            "characters, numbers -20..1200 (thorough 120000), pairs of tags up to 3 (thorough 5) characters each, texts of 1..3 (thorough 4) characters against numbers, tags of 3, 6 or 20 (thorough 64) parameters",
            "outside": "longer tags; other characters beyond Latin-1",
            "reach": ["accepted", "rejected", "long accepted", "long rejected", "known who", "unknown who", "number", "negative", "split", "with parameter",
                      "bad parameter", "equal", "different", "enum", "many parameters", "text and number"]},
    "P23": {"cases": p23, "bounds": "every documented address of 1..5 (thorough 9) characters",
            "outside": "addresses with an interface suffix (#4#..), which the library's documentation does not define",
            "reach": ["kind GENERAL", "kind AMBIENT", "kind LIGHT_POINT", "kind GROUP"]},
}
