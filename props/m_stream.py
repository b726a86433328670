"""The byte stream: segmentation, malformed data, read timeouts, flow control."""
import asyncio

from pyown.client import SessionType
from pyown.items import Light
from pyown.messages import parse_message, GenericMessage, NormalMessage
from pyown.tags import Who, What, Where

from props.common import ACK, connect, outcome, start, read_all, well_formed, FRAME, not_pair

SHAPES = {
    "light": ["*1*", 1, "*", 2, "##"],
    "level": ["*1*", 2, "*", 2, "##"],
    "status": ["*#1*", 3, "##"],
    "time": ["*#13**0*", 2, "*", 2, "*", 2, "*", 3, "##"],
    "power": ["*#18*5", 1, "*113*", 4, "##"],
    "writing": ["*#13**#10*", 3, "*", 2, "##"],
    "ack": ["*#*1##"],
    "nack": ["*#*0##"],
    "generic": ["*99*", 1, "##"],
}


def shaped(ctx, shape, name):
    out = ""
    for i, p in enumerate(SHAPES[shape]):
        out = out + (p if isinstance(p, str) else ctx.digits(f"{name}_{i}", p))
    return out


def shape_len(shape):
    return sum(len(p) if isinstance(p, str) else p for p in SHAPES[shape])


def feed_cut(tr, data, cuts):
    a = 0
    for c in list(cuts) + [len(data)]:
        if c > a:
            tr.feed(data[a:c])
            a = c


# ------------------------------------------------------------------ P06
def segmented_shapes(ctx, shapes, ncuts):
    frames = [shaped(ctx, s, f"f{i}") for i, s in enumerate(shapes)]
    data = "".join(frames).encode("ascii")
    n = len(data)
    lp, c, tr = connect(ctx)
    if ncuts == "all":
        cuts = list(range(1, n))
    else:
        cuts, at = [], 1
        for i in range(ncuts):
            at = ctx.choice(f"cut{i}", range(at, n + 1))
            cuts.append(at)
    feed_cut(tr, data, cuts)
    ctx.check(tr.fatal is None, "a valid stream is not an error, however it is split")
    got, _ = read_all(lp, c)
    ctx.check(len(got) == len(frames), "every frame of the stream is delivered once")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "the frames are delivered in order")
    ctx.check(ctx.all_of([g.type == parse_message(f).type for g, f in zip(got, frames)]), "with their own kind")
    ctx.reach("stream")


def segmented_any(ctx, lens, cuts):
    frames = [well_formed(ctx, n, f"f{i}") for i, n in enumerate(lens)]
    data = "".join(frames).encode("ascii")
    lp, c, tr = connect(ctx)
    feed_cut(tr, data, cuts)
    ctx.check(tr.fatal is None, "a valid stream is not an error, however it is split")
    got, _ = read_all(lp, c)
    ctx.check(len(got) == len(frames), "every frame of the stream is delivered once")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "the frames are delivered in order")
    ctx.reach("any stream")


def interleaved(ctx, shapes, order):
    """reads between the packets: nothing is delivered before its end has come"""
    frames = [shaped(ctx, s, f"f{i}") for i, s in enumerate(shapes)]
    data = "".join(frames).encode("ascii")
    n = len(data)
    ends, a = [], 0
    for f in frames:
        a += len(f)
        ends.append(a)
    lp, c, tr = connect(ctx)
    c1 = ctx.choice("c1", range(1, n))
    tr.feed(data[:c1])
    got, _ = read_all(lp, c)
    early = len([e for e in ends if e <= c1])
    ctx.check(len(got) == early, "exactly the complete frames have been delivered")
    tr.feed(data[c1:])
    more, _ = read_all(lp, c)
    got = got + more
    ctx.check(len(got) == len(frames), "the rest is delivered once complete")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "the frames are delivered in order")
    ctx.reach("interleaved")


def burst(ctx, k, per):
    """many messages before any is read, `per` in each packet; the values of some are symbolic"""
    frames = []
    for i in range(k):
        what = ctx.digits(f"w{i}", 1) if i % max(1, k // 16) == 0 or i == k - 1 else str(i % 2)
        frames.append("*1*" + what + "*" + str(11 + i) + "##")
    lp, c, tr = connect(ctx)
    for a in range(0, k, per):
        tr.feed("".join(frames[a:a + per]).encode("ascii"))
    ctx.check(tr.fatal is None, "a burst of messages is not an error")
    got, _ = read_all(lp, c, limit=k + 5)
    ctx.check(len(got) == k, "every frame of a burst is delivered once")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "the frames of a burst are delivered in order")
    ctx.reach("burst")


def long_frame(ctx, k, per):
    """one long frame, cut into packets of `per` bytes, between two short ones"""
    vals = [ctx.digits(f"v{i}", 2) if i % max(1, k // 16) == 0 else str(i) for i in range(k)]
    frames = ["*1*1*12##", "*#13**99*" + "*".join(vals) + "##", "*1*0*12##"]
    data = "".join(frames).encode("ascii")
    lp, c, tr = connect(ctx)
    feed_cut(tr, data, range(per, len(data), per))
    ctx.check(tr.fatal is None, "a long frame is not an error")
    got, _ = read_all(lp, c)
    ctx.check(len(got) == 3, "a long frame is delivered once")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "a long frame is delivered whole")
    ctx.reach("long frame")


def huge_frame(ctx, n, per):
    """a frame of more than n bytes arrives in packets of `per` bytes: it is kept until its end"""
    d = ctx.digits("d", 2)
    frame = "*#13**99*" + "*".join(["1234567"] * (n // 8)) + "*" + d + "##"
    lp, c, tr = connect(ctx)
    data = frame.encode("ascii")
    feed_cut(tr, data, range(per, len(data), per))
    ctx.check(tr.fatal is None, "a huge frame is not an error")
    tr.feed(b"*1*0*12##")
    got, _ = read_all(lp, c)
    ctx.check(len(got) == 2 and got[1].message == "*1*0*12##", "a huge frame is delivered once, before the next")
    ctx.check(len(got[0].values) == n // 8 + 1 and got[0].values[-1].string == d and got[0].message == frame, "and whole")
    ctx.reach("huge frame")


def two_streams(ctx, shapes, others):
    """two connections at once: packets of one stream come between the packets of the other"""
    fa = [shaped(ctx, s, f"a{i}") for i, s in enumerate(shapes)]
    fb = [shaped(ctx, s, f"b{i}") for i, s in enumerate(others)]
    da, db = "".join(fa).encode("ascii"), "".join(fb).encode("ascii")
    lp = ctx.loop()
    _, ca, ta = connect(ctx, loop=lp)
    _, cb, tb = connect(ctx, loop=lp)
    i = ctx.choice("i", range(1, len(da)))
    j = ctx.choice("j", range(1, len(db)))
    ta.feed(da[:i])
    tb.feed(db[:j])
    ta.feed(da[i:])
    tb.feed(db[j:])
    ctx.check(ta.fatal is None and tb.fatal is None, "two valid streams are not an error")
    for c, frames in ((ca, fa), (cb, fb)):
        got, _ = read_all(lp, c)
        ctx.check(len(got) == len(frames), "each connection delivers its own frames, once")
        ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "in order and unchanged")
    ctx.reach("two streams")


def p06(tier):
    q = tier == "quick"
    yield "two_streams", {"shapes": ["light"], "others": ["level", "ack"]}
    if not q:
        yield "two_streams", {"shapes": ["light", "status"], "others": ["time", "nack"]}
    for k, per in ((1100, 1100), (5000, 1)) if q else ((10000, 10000), (10000, 1), (2000, 7)):
        yield "burst", {"k": k, "per": per}
    yield "huge_frame", {"n": 100000 if q else 300000, "per": 16384}
    for k, per in ((1200, 64), (1200, 5000)) if q else ((6000, 64), (6000, 30000), (6000, 700)):
        yield "long_frame", {"k": k, "per": per}
    combos = [["light", "light"], ["level", "status"], ["time", "ack"], ["ack", "light", "nack"],
              ["writing", "power"], ["power", "generic"]]
    for s in combos:
        yield "segmented_shapes", {"shapes": s, "ncuts": 1}
        yield "segmented_shapes", {"shapes": s, "ncuts": "all"}
        yield "interleaved", {"shapes": s, "order": 0}
    for s in [["light", "ack"], ["status", "light"]] if q else combos:
        yield "segmented_shapes", {"shapes": s, "ncuts": 2}
    if not q:
        for s in (["time", "writing", "light"], ["level", "level", "ack", "status"]):
            yield "segmented_shapes", {"shapes": s, "ncuts": 2}
            yield "segmented_shapes", {"shapes": s, "ncuts": "all"}
        yield "segmented_shapes", {"shapes": ["light", "ack"], "ncuts": 3}
    for lens in ([5, 6], [6, 5]) if q else ([5, 6], [6, 5], [6, 6], [4, 5, 5], [7, 5]):
        n = sum(lens)
        for c in [[]] + [[i] for i in range(1, n)] + [list(range(1, n))]:
            yield "segmented_any", {"lens": lens, "cuts": c}
    for n in (7, 8) if q else (7, 8, 9, 10):
        for i in range(1, n):
            yield "segmented_any", {"lens": [n], "cuts": [i]}


# ------------------------------------------------------------------ P07
def bad_text(ctx, n, kind):
    """symbolic data that no valid frame starts with"""
    if kind == "blank":
        # a frame with blanks between its '*' and its '##', and further characters around them
        i = ctx.choice("blank_at", range(n))
        s = ctx.text("bad", n, FRAME)
        b = ctx.text("blank", 1, " \t\n\r\x0b\x0c")
        for j in range(n - 1):
            if j + 1 != i:
                ctx.assume(not_pair(ctx, s, j))
        # blanks at the end of a frame's text, before its separator, are the edge of P03
        ctx.assume(s[n - 1:n] != "#")
        return ("*" + s[:i] + b + s[i:] + "##").encode("ascii")
    if kind == "nonascii":
        s = ctx.bytes("bad", n)
        ctx.assume(ctx.any_of([s[i:i + 1] >= b"\x80" for i in range(n)]))
        return s
    if kind == "nostar":
        s = ctx.text("bad", n, "".join(map(chr, range(33, 127))))
        ctx.assume(s[:1] != "*")
        # '#' could complete the separator of the frame before it: not a different frame
        ctx.assume(s[:1] != "#")
        return (s + "##").encode("ascii")
    s = ctx.text("bad", n, "".join(map(chr, range(33, 127))))
    ctx.assume(ctx.any_of([ctx.all_of([s[i:i + 1] != d for d in FRAME]) for i in range(n)]))
    for i in range(n - 1):
        ctx.assume(not_pair(ctx, s, i))
    if n:
        ctx.assume(s[-1:] != "#")
    return ("*" + s + "##").encode("ascii")


def before_bad(ctx, shapes, n, kind, packets):
    frames = [shaped(ctx, s, f"f{i}") for i, s in enumerate(shapes)]
    good = "".join(frames).encode("ascii")
    bad = bad_text(ctx, n, kind)
    lp, c, tr = connect(ctx)
    if packets == "apart":
        tr.feed(good)
        tr.feed(bad)
    elif packets == "cut":
        cut = ctx.choice("cut", range(1, len(bad)))
        tr.feed(good + bad[:cut])
        tr.feed(bad[cut:])
    else:
        tr.feed(good + bad)
    got, _ = read_all(lp, c)
    ctx.check(len(got) == len(frames), "exactly the valid frames before the malformed data are delivered")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "in order and unchanged")
    ctx.reach("malformed after valid")


def not_ascii_inside(ctx, n):
    """bytes that are not ASCII in the middle of a frame whose beginning came before"""
    text = shaped(ctx, "time", "f").encode("ascii")
    at = ctx.choice("at", [1, 4, 7, len(text) - 2, len(text) - 1])
    b = ctx.bytes("bad", n)
    ctx.assume(ctx.any_of([b[i:i + 1] >= b"\x80" for i in range(n)]))
    lp, c, tr = connect(ctx)
    tr.feed(b"*1*0*12##" + text[:at])
    if ctx.flag("together"):
        tr.feed(b + text[at:])
    else:
        tr.feed(b)
        tr.feed(text[at:])
    got, _ = read_all(lp, c)
    ctx.check(len(got) == 1 and got[0].message == "*1*0*12##", "no message is made up from a frame with other bytes inside")
    ctx.reach("not ASCII inside")


def blank_inside(ctx, packets):
    """a frame of a documented shape but for one blank inside one of its tags"""
    shape = ctx.choice("shape", ["light", "status", "time", "writing", "ack"])
    text = shaped(ctx, shape, "f")
    at = ctx.choice("at", range(1, len(text) - 2))
    b = ctx.text("blank", 1, " \t\n\r\x0b\x0c")
    data = (text[:at] + b + text[at:]).encode("ascii")
    lp, c, tr = connect(ctx)
    tr.feed(b"*1*0*12##")
    if packets == "cut":
        tr.feed(data[:at + 1])
        tr.feed(data[at + 1:])
    else:
        tr.feed(data)
    got, _ = read_all(lp, c)
    ctx.check(len(got) == 1 and got[0].message == "*1*0*12##", "no message is made up from a frame with a blank inside")
    ctx.reach("blank inside")


def p07(tier):
    q = tier == "quick"
    for kind in ("nostar", "inside"):
        for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            for s in (["light"], ["time", "light"], []):
                for p in ("together", "apart", "cut"):
                    yield "before_bad", {"shapes": s, "n": n, "kind": kind, "packets": p}
    for n in (2, 4) if q else (2, 3, 4, 6):
        for s in ([], ["light"]):
            for p in ("together", "apart", "cut"):
                yield "before_bad", {"shapes": s, "n": n, "kind": "blank", "packets": p}
    for p in ("together", "cut"):
        yield "blank_inside", {"packets": p}
    for n in (1, 2) if q else (1, 2, 3):
        yield "not_ascii_inside", {"n": n}
    for n in (1, 3):
        for s in (["light"], ["time", "light"]):
            yield "before_bad", {"shapes": s, "n": n, "kind": "nonascii", "packets": "apart"}


# ------------------------------------------------------------------ P26
def timed_reads(ctx, arrivals, reads):
    """messages arrive at symbolic moments, reads time out at others: nothing is lost"""
    lp, c, tr = connect(ctx)
    frames = []
    t = 0
    for i in range(arrivals):
        f = shaped(ctx, "light", f"f{i}")
        frames.append(f)
        t = t + ctx.choice(f"gap{i}", [0, 1, 3, 5, 7])
        lp.call_at(t + 0.25 + i * 0.01, tr.feed, f.encode("ascii"))
    got = []
    for i in range(reads):
        to = ctx.choice(f"to{i}", [1, 5, 0] if reads < 3 else [1, 5])
        k, v = outcome(lp.drive(c.read_message(timeout=to)))
        ctx.check(k != "pending", "a read with a timeout always ends")
        if k == "value":
            got.append(v)
            ctx.reach("read in time")
        else:
            ctx.check(isinstance(v, TimeoutError), "a read that gets nothing raises TimeoutError")
            ctx.reach("read timed out")
    lp.settle()
    more, _ = read_all(lp, c)
    got = got + more
    ctx.check(len(got) == len(frames), "no message is lost or duplicated by a timeout")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "messages are read in order of arrival")


def cancelled_reads(ctx, arrivals):
    """a read is cancelled at a symbolic moment around the arrival of a message"""
    lp, c, tr = connect(ctx)
    frames = [shaped(ctx, "light", f"f{i}") for i in range(arrivals)]
    when = ctx.choice("when", [0, 1, 2, 3, 4])
    first = ctx.flag("feed_first")
    delay = ctx.choice("delay", [0, 0.01, 0.05, 0.1, 0.5, 1])

    async def body():
        t = lp.create_task(c.read_message(timeout=None))
        await asyncio.sleep(0)
        if first:
            tr.feed(frames[0].encode("ascii"))
        if delay:
            await asyncio.sleep(delay)
        for _ in range(when):
            await asyncio.sleep(0)
        t.cancel()
        if not first:
            tr.feed(frames[0].encode("ascii"))
        try:
            return await t
        except asyncio.CancelledError:
            return None
    k, v = outcome(lp.drive(body()))
    ctx.check(k == "value", "cancelling a read is clean")
    got = [v] if v is not None else []
    ctx.reach("cancelled" if v is None else "finished")
    for f in frames[1:]:
        tr.feed(f.encode("ascii"))
    more, _ = read_all(lp, c)
    got = got + more
    ctx.check(len(got) == len(frames), "no message is lost or duplicated by a cancelled read")
    ctx.check(ctx.all_of([g.message == f for g, f in zip(got, frames)]), "messages are read in order of arrival")


def cancelled_loop(ctx, k, by):
    """the event loop is cancelled around the arrival of events, and run again: no event is lost"""
    lp, c, tr = connect(ctx, SessionType.EventSession)
    ev = [(ctx.digits(f"v{i}", 1), ctx.digits(f"w{i}", 2)) for i in range(k)]
    frames = [f"*1*{v}*{w}##" for v, w in ev]
    calls = []
    runs = [lp.create_task(c.loop())]
    together = ctx.flag("together")
    again = ctx.flag("again")
    at = ctx.choice("at", range(k))
    steps = ctx.choice("steps", [0, 1, 2, 3, 4, 5])

    async def cb(item, on):
        calls.append((item.where.string, on))
        if by == "callback" and len(runs) == 1 and len(calls) == at + 1:
            for _ in range(steps):
                await asyncio.sleep(0)
            runs[0].cancel()
    Light.on_status_change(cb)

    async def arrive():
        if together:
            tr.feed("".join(frames).encode("ascii"))
        for i, f in enumerate(frames):
            if not together:
                tr.feed(f.encode("ascii"))
            if by == "moment" and i == at:
                for _ in range(steps):
                    await asyncio.sleep(0)
                runs[0].cancel()
    lp.call_at(1.0, lambda: lp.create_task(arrive()))
    lp.drive(until=3.0)
    ctx.check(runs[0].done(), "a cancelled event loop ends")
    more = []
    if again:
        runs.append(lp.create_task(c.loop()))
        lp.drive(until=6.0)
    else:
        more, _ = read_all(lp, c)
    ctx.check(len(calls) + len(more) == k, "no event is lost or repeated when the event loop is cancelled")
    ctx.check(ctx.all_of([ctx.all_of([a == w, ctx.iff(x, v != "0")]) for (a, x), (v, w) in zip(calls, ev)]),
              "each event is dispatched with its own values, in order")
    ctx.check(ctx.all_of([m.message == f for m, f in zip(more, frames[len(calls):])]), "the others are read in order")
    ctx.reach("cancelled loop, run again" if again else "cancelled loop, read on")


def p26(tier):
    q = tier == "quick"
    for by in ("callback", "moment"):
        yield "cancelled_loop", {"k": 3 if q else 4, "by": by}
    yield "timed_reads", {"arrivals": 1, "reads": 2}
    yield "timed_reads", {"arrivals": 2, "reads": 3}
    if not q:
        yield "timed_reads", {"arrivals": 3, "reads": 4}
    yield "cancelled_reads", {"arrivals": 1}
    yield "cancelled_reads", {"arrivals": 2}


# ------------------------------------------------------------------ P13
def flow(ctx, n, delays):
    """pause, resume and send events in a symbolic order, at symbolic moments"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=60.0))
    where = ctx.digits("w", 2)
    sent, paused, t = [], False, 0.0
    tasks = []

    def send(i):
        m = NormalMessage((Who("1"), What(str(i)), Where(where)))
        sent.append(m.message)
        tasks.append(lp.create_task(c.send_message(m)))

    for i in range(n):
        t = t + ctx.choice(f"d{i}", delays) + 0.001    # no two events at one instant
        if ctx.flag(f"send{i}"):
            lp.call_at(t, send, i)
        elif paused:
            lp.call_at(t, tr.resume)
            paused = False
        else:
            lp.call_at(t, tr.pause)
            paused = True
    t = t + 1.0
    if paused:
        lp.call_at(t, tr.resume)
        ctx.reach("paused to the end")
    lp.settle()
    ctx.check(not any(p for _, p, _ in tr.marks), "nothing is written while the transport is paused")
    ctx.check(len(tr.sent) == len(sent), "every message is written exactly once, none is dropped")
    want = [m.encode("ascii") for m in sent]
    for w in want:
        ctx.check(ctx.any_of([ctx.same(s, w) for s in tr.sent]), "every message is written whole")
    ctx.check(all(k.done() and k.exception() is None for k in tasks), "every send completes after the resume")
    if len(sent) > 1:
        ctx.reach("several sends")
    if any(p for p in sent):
        ctx.reach("sent")


def two_flows(ctx, n, delays):
    """two connections: what pauses one does not hold or hurt the other"""
    lp = ctx.loop(horizon=60.0)
    _, ca, ta = connect(ctx, loop=lp)
    _, cb, tb = connect(ctx, loop=lp)
    where = ctx.digits("w", 2)
    lp.call_at(0.01, ta.pause)
    sent = {0: [], 1: []}
    tasks = {0: [], 1: []}

    def send(k, i):
        m = NormalMessage((Who("1"), What(str(i)), Where(where)))
        sent[k].append(m.message.encode("ascii"))
        tasks[k].append(lp.create_task((ca, cb)[k].send_message(m)))
    t = 0.02
    for i in range(n):
        t = t + ctx.choice(f"d{i}", delays) + 0.001
        lp.call_at(t, send, 1 if ctx.flag(f"other{i}") else 0, i)
    lp.drive(until=20.0)
    ctx.check(len(ta.sent) == 0, "nothing is written to the paused transport")
    ctx.check(ctx.same(tb.sent, sent[1]), "the other connection sends all the same")
    ctx.check(all(k.done() and k.exception() is None for k in tasks[1]), "without waiting for the paused one")
    lp.call_at(30.0, ta.resume)
    lp.settle()
    ctx.check(len(ta.sent) == len(sent[0]), "after the resume every message is written once")
    for w in sent[0]:
        ctx.check(ctx.any_of([ctx.same(s, w) for s in ta.sent]), "every message is written whole")
    ctx.check(len(tb.sent) == len(sent[1]), "each on its own connection")
    ctx.reach("two connections")


def sequential(ctx, n):
    """messages sent one after the other by one task, pauses and resumes in between"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=60.0))
    where = ctx.digits("w", 2)
    at = 0.0
    for i in range(n):
        at = at + ctx.choice(f"d{i}", [0.0, 0.04, 0.3]) + 0.001
        lp.call_at(at, tr.pause if i % 2 == 0 else tr.resume)
    lp.call_at(at + 2.0, lambda: tr.resume() if tr.paused else None)
    sent = []

    async def run():
        for i in range(n + 2):
            m = NormalMessage((Who("1"), What(str(i)), Where(where)))
            sent.append(m.message.encode("ascii"))
            await c.send_message(m)
            await asyncio.sleep(0.03)
    t = lp.create_task(run())
    lp.settle()
    ctx.check(t.done() and t.exception() is None, "every send completes after the resume")
    ctx.check(not any(p for _, p, _ in tr.marks), "nothing is written while the transport is paused")
    ctx.check(ctx.same(list(tr.sent), sent), "messages sent one after the other are written whole, once and in that order")
    ctx.reach("sequential")


def long_sends(ctx, n, size):
    """long messages sent at once, the transport pausing after any write"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=60.0))
    d = [ctx.digits(f"d{i}", 3) for i in range(n)]
    sent = ["*" + d[i] + str(i) * size + "*" + d[i] + "##" for i in range(n)]
    stop = ctx.choice("stop", [0, 1, 2])

    def full(k):
        if k == stop:
            tr.pause()
            lp.call_later(0.45, tr.resume)
    if stop:
        tr.on_full = full
    tasks = [lp.create_task(c.send_message(GenericMessage([s[1:4] + str(i) * size, s[-5:-2]]))) for i, s in enumerate(sent)]
    lp.settle()
    ctx.check(not any(p for _, p, _ in tr.marks), "nothing is written while the transport is paused")
    ctx.check(all(t.done() and t.exception() is None for t in tasks), "every send completes")
    text = "".join(b.decode("ascii") for b in tr.sent)
    got = text.split("##")
    ctx.check(len(got) == n + 1 and got[n] == "", "every message is written once")
    for s in sent:
        ctx.check(ctx.any_of([g == s[:-2] for g in got]), "and whole, not mixed with another")
    ctx.reach("long sends")


def long_pause(ctx, times):
    """the transport stays paused for long"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=200000.0))
    where = ctx.digits("w", 2)
    for_ = ctx.choice("for", times)
    lp.call_at(0.1, tr.pause)
    lp.call_at(0.1 + for_, tr.resume)
    sent, tasks = [], []

    def send(i):
        m = NormalMessage((Who("1"), What(str(i)), Where(where)))
        sent.append(m.message.encode("ascii"))
        tasks.append(lp.create_task(c.send_message(m)))
    lp.call_at(0.2, send, 0)
    lp.call_at(3.0, send, 1)
    lp.settle()
    ctx.check(not any(p for _, p, _ in tr.marks), "nothing is written while the transport is paused")
    ctx.check(len(tr.sent) == 2 and ctx.same(sorted(tr.sent), sorted(sent)), "every message is written once after a long pause")
    ctx.check(all(x.done() and x.exception() is None for x in tasks), "and every send completes")
    ctx.reach("long pause")


def many_sends(ctx, k):
    """a long history: sends, with a pause now and then"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=600.0))
    where = ctx.digits("w", 2)
    sent, tasks = [], []

    def send(i):
        m = NormalMessage((Who("1"), What(str(i)), Where(where)))
        sent.append(m.message.encode("ascii"))
        tasks.append(lp.create_task(c.send_message(m)))
    for i in range(k):
        t = 0.3 * i
        lp.call_at(t + 0.1, send, i)
        if i % 7 == 3:
            lp.call_at(t + 0.05, tr.pause)
            lp.call_at(t + 1.0, tr.resume)
    lp.settle()
    ctx.check(not any(p for _, p, _ in tr.marks), "nothing is written while the transport is paused")
    ctx.check(len(tr.sent) == k, "every message is written exactly once, none is dropped")
    for w in sent:
        ctx.check(ctx.any_of([ctx.same(s, w) for s in tr.sent]), "every message is written whole")
    ctx.check(all(x.done() and x.exception() is None for x in tasks), "every send completes")
    ctx.reach("many sends")


def full_inside(ctx, n, together):
    """the transport's buffer fills while a message is written: it pauses the protocol from inside write()"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=60.0))
    where = ctx.digits("w", 2)
    after = ctx.choice("after", range(1, n + 1))
    for_ = ctx.choice("for", [0.0, 0.05, 0.3, 2.0])
    again = ctx.flag("again")

    def full(k):
        if k == after or again and k == after + 1:
            tr.pause()
            lp.call_later(for_, tr.resume)
    tr.on_full = full
    sent, tasks = [], []

    async def one(i):
        m = NormalMessage((Who("1"), What(str(i)), Where(where)))
        sent.append(m.message.encode("ascii"))
        await c.send_message(m)

    async def run():
        for i in range(n):
            await one(i)
    if together:
        for i in range(n):
            tasks.append(lp.create_task(one(i)))
    else:
        tasks.append(lp.create_task(run()))
    lp.settle()
    ctx.check(not any(p for _, p, _ in tr.marks), "nothing is written while the transport is paused")
    ctx.check(all(x.done() and x.exception() is None for x in tasks), "every send completes after the resume")
    ctx.check(len(tr.sent) == n, "every message is written exactly once, none is dropped")
    for w in sent:
        ctx.check(ctx.any_of([ctx.same(s, w) for s in tr.sent]), "every message is written whole")
    if not together:
        ctx.check(ctx.same(list(tr.sent), sent), "in the order they were sent")
    ctx.reach("full inside")


def lost_paused(ctx, n, how):
    """the connection is lost while sends are held by a pause: they end"""
    lp, c, tr = connect(ctx, loop=ctx.loop(horizon=60.0))
    where = ctx.digits("w", 2)
    tr.pause()
    tasks = [lp.create_task(c.send_message(NormalMessage((Who("1"), What(str(i)), Where(where))))) for i in range(n)]
    command = lp.create_task(Light(c, where).turn_on()) if ctx.flag("command") else None
    when = ctx.choice("when", [0.05, 0.1, 0.5, 3.0])
    lp.call_at(when, tr.lose, ConnectionResetError("reset") if how == "error" else None)
    lp.settle()
    ctx.check(all(t.done() for t in tasks), "a send held by a pause ends when the connection is lost")
    if command is not None:
        ctx.check(outcome(command)[0] == "error", "a command held by a pause ends, with an error, when the connection is lost")
    ctx.check(len(tr.sent) == 0, "nothing is written to a paused or lost connection")
    lp.drive(c.close())
    c2 = start(lp, c)
    k, v = outcome(lp.drive(c.send_message(NormalMessage((Who("1"), What("9"), Where(where))))))
    ctx.check(k == "value" and ctx.same(list(c2.sent)[-1:], [("*1*9*" + where + "##").encode("ascii")]),
              "started again, the client sends at once")
    ctx.reach("lost while paused")


def p13(tier):
    q = tier == "quick"
    for how in ("lost", "error"):
        yield "lost_paused", {"n": 2 if q else 5, "how": how}
    for together in (False, True):
        yield "full_inside", {"n": 3 if q else 6, "together": together}
    yield "two_flows", {"n": 2 if q else 3, "delays": [0.0, 0.3]}
    yield "long_pause", {"times": [4.0, 20.0, 65.0, 400.0]}
    yield "long_pause", {"times": [4000.0]}
    if not q:
        yield "long_pause", {"times": [90000.0]}
    for size in (600, 5000) if q else (600, 5000, 70000):
        yield "long_sends", {"n": 2 if q else 4, "size": size}
    yield "many_sends", {"k": 40 if q else 150}
    yield "sequential", {"n": 3 if q else 5}
    if tier == "quick":
        yield "flow", {"n": 2, "delays": [0.0, 0.05, 0.3]}
        yield "flow", {"n": 3, "delays": [0.0, 0.25]}
        yield "flow", {"n": 4, "delays": [0.07]}
    else:
        yield "flow", {"n": 3, "delays": [0.0, 0.05, 0.1, 0.3]}
        yield "flow", {"n": 4, "delays": [0.0, 0.25]}
        yield "flow", {"n": 6, "delays": [0.07]}


SPEC = {
    "P06": {"cases": p06, "bounds": "streams of one to four frames: listed shapes with symbolic digits cut at every one or two "
            "positions and at every byte; any two frames of 5 and 6 characters (thorough up to 7) and any single frame of "
            "7..8 (thorough 10) characters over the frame alphabet, at every cut position; "
            "a frame of 100000 (thorough 300000) bytes in many packets; bursts of 1100 messages in one packet and 5000 one each (thorough 10000) and a frame of 1200 (thorough 6000) values, part "
            "of the digits symbolic; two connections at once, each stream cut at any position", "outside": "other long streams; blanks between frames; frames whose last tag ends in '#'",
            "reach": ["stream", "any stream", "interleaved", "burst", "long frame", "huge frame", "two streams"]},
    "P07": {"cases": p07, "bounds": "zero to two valid frames with symbolic digits, then malformed data with 1..3 (thorough 5) "
            "symbolic characters: not starting with '*', with a forbidden printable character inside, with a blank inside, or not ASCII; in one "
            "packet or two, cut before or at any place of the malformed data (non-ASCII data in a packet of its own)",
            "outside": "what happens to data after the malformed frame (the connection is dropped); longer garbage",
            "reach": ["malformed after valid", "blank inside", "not ASCII inside"]},
    "P26": {"cases": p26, "bounds": "one or two (thorough three) messages with symbolic content and arrival gaps from "
            "{0,1,3,5,7} s against two or three (thorough four) reads with timeouts of 1 s or 5 s (two reads: also 0 s); one read cancelled at "
            "any of five points of the schedule after each of six delays; an event loop cancelled at six points of the schedule around any of 3 (thorough 4) events, by a callback or from outside, then run again or read on", "outside": "longer histories; other moments",
            "reach": ["read in time", "read timed out", "cancelled", "cancelled loop, run again", "cancelled loop, read on"],
            "assumptions": ["CPython's asyncio queue and timeout are executed as they are, on a virtual clock"]},
    "P13": {"cases": p13, "bounds": "every order of up to 4 (thorough 6) pause, resume and send events with the listed gaps, "
            "symbolic address in every message; two connections, one of them paused, with 2 (thorough 3) sends spread over both; "
            "pauses of 4 to 4000 seconds (thorough a day); 2 (thorough 4) messages of up to 5000 (thorough 70000) characters sent at once with a pause after the first or second write; a history of 40 (thorough 150) sends with regular pauses; one task sending 5 (thorough 7) "
            "messages while the transport is paused and resumed; 3 (thorough 6) sends, together or in turn, the transport pausing inside any one or two writes; 2 (thorough 5) sends and a command held by a pause when the connection is lost at four moments", "outside": "longer histories; order among concurrent senders",
            "reach": ["sent", "several sends", "paused to the end", "two connections", "many sends", "sequential", "long pause", "full inside", "lost while paused", "long sends"]},
}
