"""Time to parse: no text makes the pattern matching explode."""
from pyown.exceptions import ParseError
from pyown.messages import parse_message

from props.common import FRAME, connect, outcome

LENGTHS = (4, 6, 7, 9, 10)


def probe(ctx, n, stream):
    """run the parser so that every pattern it consults is recorded"""
    s = ctx.text("s", n, FRAME)
    if stream:
        lp, c, tr = connect(ctx)
        tr.feed(("*" + s + "##").encode())
        outcome(lp.drive(c.read_message()))
    else:
        try:
            parse_message("*" + s + "##")
        except ParseError:
            pass
    ctx.reach("probed")


def pump(ctx, n, stream, length):
    """the counterexample against the real code: prefix, many copies of the loop, then anything"""
    k = 80 // max(1, len(ctx.inputs["loop"])) + 8
    head = ctx.inputs["prefix"] + ctx.inputs["loop"] * k
    for tail in ctx.inputs["tails"]:
        if stream:
            lp, c, tr = connect(ctx)
            tr.feed((head + tail).encode("latin-1"))
            outcome(lp.drive(c.read_message()))
        else:
            try:
                parse_message(head + tail)
            except ParseError:
                pass
    ctx.reach("pumped")


def ambiguity(n, stream, length):
    from sx import ambig, symctx
    return ambig.unit(probe, {"n": n, "stream": stream}, length)


ambiguity.solver_unit = True
ambiguity.replay = "pump"


def p04(tier):
    q = tier == "quick"
    for n in (3, 4, 5, 7) if q else (3, 4, 5, 6, 7, 8):
        for length in (4,) if q else (4, 7):
            yield "ambiguity", {"n": n, "stream": False, "length": length}
    yield "ambiguity", {"n": 4, "stream": True, "length": 4 if q else 7}


SPEC = {
    "P04": {"cases": p04, "bounds": "every pattern the parser consults on any frame of 6..10 characters, loops of 1..4 (thorough 7) "
            "characters", "outside": "loops longer than that, polynomial (non-exponential) slow-down, hand-written loops "
            "(their iterations are bounded by the other properties' runs)",
            "reach": ["pattern checked"]},
}
