"""Shared harness pieces: a connected client on the virtual loop, symbolic frames."""
import asyncio

from pyown.client import Client, SessionType

FRAME = "0123456789#*"
TAGC = "0123456789#"
DIGITS = "0123456789"
ACK = b"*#*1##"
NACK = b"*#*0##"


def not_pair(ctx, b, i):
    return ctx.any_of([b[i:i + 1] != "#", b[i + 1:i + 2] != "#"])


def tag_text(ctx, name, n, alphabet=TAGC):
    """a symbolic tag of n characters that does not end in '#' nor contain '##'"""
    t = ctx.text(name, n, alphabet)
    if t:
        ctx.assume(t[-1:] != "#")
        for j in range(n - 1):
            ctx.assume(not_pair(ctx, t, j))
    return t


def well_formed(ctx, n, name="s"):
    """a symbolic well-formed frame of n characters: '*' body '##', no other '##'"""
    body = ctx.text(name, n - 3, FRAME)
    s = "*" + body + "##"
    if n > 3:
        ctx.assume(body[-1:] != "#")
    for i in range(n - 4):
        ctx.assume(not_pair(ctx, body, i))
    return s


def outcome(task):
    """('value', v) | ('error', exception) | ('pending', None)"""
    if not task.done():
        return "pending", None
    if task.cancelled():
        return "error", asyncio.CancelledError()
    e = task.exception()
    return ("error", e) if e is not None else ("value", task.result())


def gateway(loop, answers):
    """answers the writes of the handshake, in turn; answers[0] is the greeting"""
    def on_connect(tr):
        state = {"i": 1}

        def on_write(data):
            i = state["i"]
            if i < len(answers):
                state["i"] = i + 1
                if answers[i] is not None:
                    tr.feed_later(answers[i])
        tr.on_write = on_write
        if answers and answers[0] is not None:
            tr.feed_later(answers[0])
    loop.on_connect = on_connect


def connect(ctx, session=SessionType.CommandSession, password="12345", loop=None):
    """a client past its handshake: (loop, client, transport)"""
    lp = loop or ctx.loop()
    c = Client("127.0.0.1", 20000, password, session, loop=lp)
    tr = start(lp, c)
    return lp, c, tr


def start(lp, c):
    gateway(lp, [ACK, ACK])
    t = lp.drive(c.start())
    t.result()
    lp.on_connect = None
    tr = lp.transports[-1]
    tr.on_write = None
    tr.sent.clear()
    tr.marks.clear()
    return tr


def read_all(lp, client, limit=20):
    """every message the client can read, until a read times out"""
    out = []
    for _ in range(limit):
        k, v = outcome(lp.drive(client.read_message()))
        if k != "value":
            return out, v
        out.append(v)
    return out, None


def reply_with(tr, answers):
    """the gateway answers the next write with these packets"""
    def on_write(data):
        tr.on_write = None
        for a in answers:
            tr.feed_later(a)
    tr.on_write = on_write
