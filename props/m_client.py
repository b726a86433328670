"""The client: session discipline, event loop resilience, item cache, lifecycle."""
import asyncio

from pyown.client import Client, SessionType
from pyown.exceptions import InvalidAuthentication, InvalidSession
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy.energy import EnergyManagement
from pyown.items.gateway import Gateway, WhatGateway
from pyown.items.lighting import Light
from pyown.messages import NormalMessage, StatusRequest, parse_message
from pyown.tags import What, Where, Who

from props.common import ACK, NACK, DIGITS, FRAME, connect, gateway, outcome, read_all, start, tag_text, well_formed

COMMAND = (SessionType.CommandSession, SessionType.OldCommandSession)


# ------------------------------------------------------------------ P12
def history(ctx, session, steps):
    """any history of calls on one client"""
    kind = {"9": SessionType.CommandSession, "1": SessionType.EventSession, "0": SessionType.OldCommandSession}[session]
    cmd = session != "1"
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "12345", kind, loop=lp)
    tr, open_ = None, False
    where = ctx.digits("w", 2)
    ctx.check(c.is_cmd_session() == cmd, "the client knows its session kind")
    for i in range(steps):
        op = ctx.choice(f"op{i}", ["start", "close", "send", "item", "read", "loop"])
        n = len(tr.sent) if tr is not None else 0
        if op == "start":
            tr = start(lp, c)
            open_ = True
            continue
        if op == "close":
            k, v = outcome(lp.drive(c.close()))
            ctx.check(k == "value", "close() always succeeds")
            if tr is not None:
                ctx.check(tr.is_closing(), "close() closes the connection")
            open_ = False
            continue
        if op == "send":
            m = NormalMessage((Who("1"), What("1"), Where(where)))
            k, v = outcome(lp.drive(c.send_message(m)))
            allowed = open_ and cmd
            if allowed:
                ctx.check(k == "value", "an open command session sends")
                ctx.check(len(tr.sent) == n + 1 and tr.sent[-1] == ("*1*1*" + where + "##").encode(), "exactly the message")
                ctx.reach("sent")
        elif op == "item":
            if open_ and cmd:
                tr.on_write = lambda d: tr.feed_later(ACK)
            k, v = outcome(lp.drive(Light(c, where).turn_on()))
            if tr is not None:
                tr.on_write = None
            allowed = open_ and cmd
            if allowed:
                ctx.check(k == "value", "an item command works on an open command session")
                ctx.check(len(tr.sent) == n + 1, "with exactly one message")
                ctx.reach("item command")
        elif op == "read":
            if open_:
                tr.feed(("*1*0*" + where + "##").encode())
            k, v = outcome(lp.drive(c.read_message()))
            allowed = open_
            if allowed:
                ctx.check(k == "value" and v.message == "*1*0*" + where + "##", "an open session reads")
                ctx.reach("read")
        else:
            t = lp.create_task(c.loop())
            if open_ and not cmd:
                lp.call_later(1.0, tr.lose)
            lp.settle()
            k, v = outcome(t)
            allowed = open_ and not cmd
            if allowed:
                ctx.check(k == "value", "the loop runs on an open event session until the connection ends")
                open_ = False
                lp.drive(c.close())
                ctx.reach("loop")
        if not allowed:
            ctx.check(k == "error" and isinstance(v, InvalidSession), "a call the session does not allow raises InvalidSession")
            ctx.check(tr is None or len(tr.sent) == n and tr.writes_after_close == 0, "and sends nothing")
            ctx.reach("refused " + op)


def forced(ctx, n):
    """the force flag is the only way to send on an event session"""
    lp, c, tr = connect(ctx, SessionType.EventSession)
    f = well_formed(ctx, n, "m")
    m = parse_message(f)
    force = ctx.flag("force")
    k, v = outcome(lp.drive(c.send_message(m, force=True) if force else c.send_message(m)))
    if force:
        ctx.check(k == "value" and tr.sent == [f.encode()], "a forced message is sent unchanged")
        ctx.reach("forced")
    else:
        ctx.check(k == "error" and isinstance(v, InvalidSession) and not tr.sent, "an event session does not send")
        ctx.reach("not forced")


FAILURES = {
    "greeting": [NACK], "refused": [ACK, NACK], "unknown reply": [ACK, b"*99*1*2##"], "password": [ACK, b"*#603356072##", NACK],
    "algorithm": [ACK, b"*98*3##"], "nonce": [ACK, b"*98*2##", b"*#0102039##"], "proof": [ACK, b"*98*2##", b"*#0102030405##", b"*#01020304##"],
    "silent": [None], "silent later": [ACK, None], "silent password": [ACK, b"*#603356072##", None],
    "silent hmac": [ACK, b"*98*1##", None], "silent proof": [ACK, b"*98*1##", b"*#0102030405##", None],
}


def failed_start(ctx, session, again):
    """a start that fails, in any way, opens nothing"""
    kind = {"9": SessionType.CommandSession, "1": SessionType.EventSession}[session]
    how = ctx.choice("how", list(FAILURES) + ["unreachable", "cancelled", "cancelled later", "cancelled password"])
    ctx.set_random("rnd")
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "12345", kind, loop=lp)
    where = ctx.digits("w", 2)
    if again:
        start(lp, c)
        lp.drive(c.close())
    if how == "unreachable":
        lp.connect_error = ConnectionRefusedError("x")
    else:
        gateway(lp, FAILURES[how.replace("cancelled", "silent")])
    if how.startswith("cancelled"):
        t = lp.create_task(c.start())
        lp.call_later(1.0, t.cancel)
        k, v = outcome(lp.drive(t))
        ctx.check(k == "error" and isinstance(v, asyncio.CancelledError), "the start is cancelled")
    else:
        k, v = outcome(lp.drive(c.start()))
        ctx.check(k == "error" and isinstance(v, (InvalidAuthentication, TimeoutError)), "the start fails")
    tr = lp.transports[-1] if lp.transports else None
    n = len(tr.sent) if tr is not None else 0
    lp.on_connect = lp.connect_error = None
    if tr is not None:
        tr.on_write = None
    op = ctx.choice("op", ["send", "item", "read", "loop", "close", "start"])
    if op == "start":
        tr2 = start(lp, c)
        ctx.check(tr2 is not tr, "a new connection is made")
        if session == "9":
            tr2.on_write = lambda d: tr2.feed_later(ACK)
            k, v = outcome(lp.drive(Light(c, where).turn_on()))
            ctx.check(k == "value" and tr2.sent == [f"*1*1*{where}##".encode()], "and the next start opens the session")
        else:
            tr2.feed(f"*1*1*{where}##".encode())
            got, _ = read_all(lp, c)
            ctx.check(len(got) == 1 and got[0].message == f"*1*1*{where}##", "and the next start opens the session")
        ctx.reach("started after a failure")
    elif op == "close":
        k, v = outcome(lp.drive(c.close()))
        ctx.check(k == "value", "close() always succeeds")
    else:
        if op == "send":
            t = c.send_message(NormalMessage((Who("1"), What("1"), Where(where))))
        elif op == "item":
            t = Light(c, where).turn_on()
        elif op == "read":
            if tr is not None:
                tr.feed(b"*1*0*12##")
            t = c.read_message()
        else:
            t = c.loop()
        k, v = outcome(lp.drive(t))
        ctx.check(k == "error" and isinstance(v, InvalidSession), "no operation works after a failed start")
        ctx.reach("refused after a failure")
    ctx.check(tr is None or len(tr.sent) == n and tr.writes_after_close == 0, "and nothing is sent")


def two_clients(ctx, first):
    """opening and closing one client neither opens nor closes another"""
    lp = ctx.loop()
    kinds = [SessionType.CommandSession, SessionType.EventSession if first == "1" else SessionType.CommandSession]
    cs = [Client("127.0.0.1", 20000, "12345", k, loop=lp) for k in kinds]
    trs, opened = [None, None], [False, False]
    where = ctx.digits("w", 2)
    for i in range(3):
        j = 1 if ctx.flag(f"which{i}") else 0
        if opened[j]:
            k, v = outcome(lp.drive(cs[j].close()))
            ctx.check(k == "value" and trs[j].is_closing(), "close() closes its own connection")
            opened[j] = False
        else:
            trs[j] = start(lp, cs[j])
            opened[j] = True
        for x in (0, 1):
            n = [len(t.sent) if t is not None else 0 for t in trs]
            m = NormalMessage((Who("1"), What("1"), Where(where)))
            k, v = outcome(lp.drive(cs[x].send_message(m)))
            if opened[x] and cs[x].is_cmd_session():
                n[x] += 1
                ctx.check(k == "value" and ctx.same(trs[x].sent[-1], m.message.encode()), "an open command session sends")
                ctx.reach("own session")
            else:
                ctx.check(k == "error" and isinstance(v, InvalidSession), "a client is open only by its own start()")
            ctx.check([len(t.sent) if t is not None else 0 for t in trs] == n, "and only on its own connection")
            if opened[x]:
                ctx.check(not trs[x].is_closing(), "a client is closed only by its own close()")


def p12(tier):
    q = tier == "quick"
    yield "two_clients", {"first": "0"}
    yield "two_clients", {"first": "1"}
    for s in "91":
        for again in (False, True):
            yield "failed_start", {"session": s, "again": again}
    for s in "91":
        yield "history", {"session": s, "steps": 3 if q else 4}
    yield "history", {"session": "0", "steps": 2 if q else 3}
    for n in (6, 8) if q else (6, 7, 8, 9):
        yield "forced", {"n": n}


# ------------------------------------------------------------------ P20
def listen(ctx, client=None):
    lp, c, tr = connect(ctx, SessionType.EventSession)
    return lp, c, tr, lp.create_task(c.loop())


def survives(ctx, n, pn):
    """any frame is received before a known event"""
    calls = []

    async def cb(item, on):
        calls.append((item, on))
    Light.on_status_change(cb)
    lp, c, tr, t = listen(ctx)
    f = well_formed(ctx, n, "f")
    tr.feed(f.encode())
    lp.settle()
    ctx.check(not t.done(), "the loop keeps running whatever well-formed frame arrives")
    before = len(calls)
    tr.feed(b"*1*1*12##")
    lp.settle()
    ctx.check(not t.done(), "the loop keeps running")
    ctx.check(len(calls) == before + 1, "the next event is still dispatched, once")
    ctx.check(str(calls[-1][0].where) == "12" and calls[-1][1] == True, "with its own item and status")
    ctx.reach("survived")


FAMILIES = {
    # frames of the families the library dispatches, with arbitrary tag contents
    "light": ("1", "normal"), "automation": ("2", "normal"), "camera": ("7", "normal"), "gateway": ("13", "normal"),
    "energy": ("18", "normal"),
    "light dim": ("1", "dim"), "automation dim": ("2", "dim"), "camera dim": ("7", "dim"), "gateway dim": ("13", "dim"),
    "energy dim": ("18", "dim"),
    "gateway write": ("13", "write"), "light write": ("1", "write"), "energy write": ("18", "write"),
    "light status": ("1", "status"), "energy status": ("18", "status"),
}


def survives_family(ctx, family, lens, alpha):
    who, kind = FAMILIES[family]
    f = [tag_text(ctx, f"f{i}", k, alpha) for i, k in enumerate(lens)]
    if kind == "normal":
        s = f"*{who}*{f[0]}*{f[1]}##"
    elif kind == "status":
        s = f"*#{who}*{f[0]}##"
    elif kind == "write":
        s = "*".join([f"*#{who}", f[0], "#" + f[1]] + f[2:]) + "##"
    else:
        s = "*".join([f"*#{who}"] + f) + "##"
    calls, all_calls = [], []

    async def cb(item, on):
        calls.append((item, on))

    async def any_cb(*a):
        all_calls.append(a)
    Light.on_status_change(cb)
    Automation.on_status_change(any_cb)
    Camera.on_status_change(any_cb)
    EnergyManagement.on_instant_power(any_cb)
    lp, c, tr, t = listen(ctx)
    tr.feed(s.encode())
    lp.settle()
    ctx.check(tr.fatal is None, "a well-formed frame does not end the connection")
    ctx.check(not t.done(), "the loop keeps running whatever event arrives")
    before = len(calls)
    tr.feed(b"*1*0*12##")
    lp.settle()
    ctx.check(not t.done() and len(calls) == before + 1, "the next event is still dispatched, once")
    ctx.check(calls[-1][1] == False, "with its own status")
    ctx.reach("survived " + family)


# events of every kind with numbers, the symbolic digits in the middle of far too many of them
HUGE = ["*#13**19*{}*1*1*1##", "*#13**19*1*{}*1*1##", "*#13**19*1*1*1*{}##", "*#13**0*{}*1*1*001##", "*#13**0*1*1*1*0{}##",
        "*#13**0*1*1*1*{}##", "*#13**1*0*1*1*{}##", "*#13**1*0*{}*1*2024##", "*#13**#22*1*1*1*001*0*1*1*{}##",
        "*#13**10*{}*1*1*1##", "*#13**11*{}*1*1*1##", "*#13**12*{}*1*1*1*1*1##", "*#13**15*{}##", "*#13**16*{}*1*1##",
        "*#18*51*113*{}##", "*#18*51*52#{}#1*5##", "*#18*51*511#{}#1*1*5##", "*#18*71#0*72#1*5*1*1*{}*1*1##",
        "*#18*71#0*72#{}*5*1*1*2023*1*1##", "*#18*71#0*72#1*{}*{}*1*2023*1*1##", "*#18*71#0*71*{}*1*1*1*1*1##",
        "*#18*11*250*{}##", "*#18*11*251*{}##", "*#1*12*2*{}*1*1##", "*#1*12*12*{}*1*1##", "*#1*12*1*{}*1##",
        "*#1*12*14*{}##", "*1*{}*12##", "*1*1*{}##", "*2*{}*12##", "*7*{}*4000##", "*7*0*{}##", "*#{}*12*1*1##"]


def survives_huge(ctx, digits):
    """numbers no date, duration or enumeration can hold"""
    form = ctx.choice("form", HUGE)
    d = ctx.digits("d", 2)
    s = form.replace("{}", "9" + "7" * (digits - 4) + d + "1")
    calls = []

    async def cb(item, on):
        calls.append((item, on))

    async def any_cb(*a):
        pass
    Light.on_status_change(cb)
    Light.on_temporization_change(any_cb)
    Automation.on_status_change(any_cb)
    Camera.on_status_change(any_cb)
    for w in WhatGateway:
        Gateway.register_callback(w, any_cb)
    for n in ("instant_power", "energy_unit_per_month", "daily_totalizers_hourly", "totalizer_since_reset",
              "actuators_info", "stop_go_status"):
        getattr(EnergyManagement, "on_" + n)(any_cb)
    lp, c, tr, t = listen(ctx)
    tr.feed(s.encode())
    lp.settle()
    ctx.check(tr.fatal is None and not t.done(), "the loop keeps running whatever numbers an event holds")
    before = len(calls)
    tr.feed(b"*1*0*12##")
    lp.settle()
    ctx.check(not t.done() and len(calls) == before + 1, "the next event is still dispatched, once")
    ctx.check(calls[-1][1] == False, "with its own status")
    ctx.reach("survived huge")


def bad_callback(ctx, ncb, nev, how):
    """callbacks that fail: the others are called all the same"""
    calls = []
    ways = {"raise": ["raises", "raises another"], "other": ["cancelled", "arity"], "call": ["at call", "arity"]}[how]
    kinds = [ctx.choice(f"kind{i}", ["good"] + ways) for i in range(ncb)]

    def make(i):
        kind = kinds[i]

        async def cb(item, on):
            calls.append(i)
            if kind == "raises":
                raise ValueError("x")
            if kind == "raises another":
                raise KeyError("y")
            if kind == "cancelled":
                raise asyncio.CancelledError()

        async def too_few(item):
            pass

        def at_call(item, on):
            calls.append(i)
            raise RuntimeError("z")
        return {"arity": too_few, "at call": at_call}.get(kind, cb)
    for i in range(ncb):
        Light.on_status_change(make(i))
    lp, c, tr, t = listen(ctx)
    d = ctx.digits("w", 2)
    want = [i for i in range(ncb) if kinds[i] != "arity"]
    for j in range(nev):
        tr.feed(("*1*1*" + d + "##").encode())
        lp.settle()
        ctx.check(not t.done(), "a failing callback does not stop the loop")
        ctx.check(calls == want * (j + 1), "every callback is called once per event, in order")
    ctx.reach("failing callbacks " + how)


def slow_callback(ctx, nev):
    """callbacks of symbolic duration: events are dispatched without waiting for them"""
    begun, ended = [], []
    long = ctx.choice("long", [50, 7200])

    async def cb(item, on):
        begun.append(on)
        await asyncio.sleep(long)
        ended.append(on)
    Light.on_status_change(cb)
    lp, c, tr, t = listen(ctx)
    whats = [ctx.digits(f"v{i}", 1) for i in range(nev)]
    for i, w in enumerate(whats):
        tr.feed(("*1*" + w + "*12##").encode())
    lp.drive(until=10.0)
    ctx.check(len(begun) == nev, "a slow callback does not delay the events after it")
    ctx.check(ctx.all_of([ctx.iff(b, w != "0") for b, w in zip(begun, whats)]), "events are dispatched in order")
    lp.settle()
    ctx.check(len(ended) == nev, "and it runs to its end")
    ctx.reach("slow callback")


def silence(ctx, k):
    """long silences between events"""
    calls = []

    async def cb(item, on):
        calls.append((item.where.string, on))
    Light.on_status_change(cb)
    lp, c, tr = connect(ctx, SessionType.EventSession, loop=ctx.loop(horizon=1e7))
    t = lp.create_task(c.loop())
    want, at = [], 0.0
    for i in range(k):
        at = at + ctx.choice(f"gap{i}", [3.0, 40.0, 500.0, 4000.0, 90000.0])
        w = ctx.digits(f"w{i}", 2)
        want.append((w, i % 2 == 1))
        lp.call_at(at, tr.feed, f"*1*{i % 2}*{w}##".encode())
    lp.drive(until=at + 100000.0)
    ctx.check(not t.done(), "silence does not stop the loop")
    ctx.check(len(calls) == k, "every event after a silence is dispatched once")
    ctx.check(ctx.all_of([ctx.all_of([a == b, x == y]) for (a, x), (b, y) in zip(calls, want)]), "with its values")
    ctx.check(len(tr.sent) == 0 and not tr.is_closing(), "and the connection is left alone")
    ctx.reach("silence")


def many_events(ctx, k):
    """a long history of events, unknown frames and failing callbacks"""
    calls = []

    async def cb(item, on):
        calls.append((item.where.string, on))
        if len(calls) % 3 == 0:
            raise ValueError("callback")
    Light.on_status_change(cb)
    lp, c, tr, t = listen(ctx)
    want = []
    for i in range(k):
        if i % 5 == 1:
            s = "*99*" + str(i) + "##"
        elif i % 5 == 3:
            s = ["*#1*" + str(i) + "*99*1##", "*4*1*" + str(i) + "##", "*18*1*2##", "*#18*2*113*1##", "*#4*1*0*0200##", "*2*99*1##",
                 "*#13**99*1##", "*7*1##"][i // 5 % 8]
        else:
            a = "9" + str(1000 + i) + ctx.digits(f"a{i}", 1) if i % 20 == 0 else str(11 + i % 80)
            s = "*1*" + str(i % 2) + "*" + a + "##"
            want.append((a, i % 2 == 1))
        tr.feed(s.encode())
        if i % 10 == 9:
            lp.settle()
    lp.settle()
    ctx.check(not t.done(), "the loop keeps running")
    ctx.check(len(calls) == len(want), "every event of a long history is dispatched once")
    ctx.check(ctx.all_of([ctx.all_of([a == b, x == y]) for (a, x), (b, y) in zip(calls, want)]), "in order")
    ctx.reach("many events")


def p20(tier):
    q = tier == "quick"
    yield "silence", {"k": 2 if q else 3}
    yield "many_events", {"k": 400 if q else 1000}
    for n in range(3, 9 if q else 11):
        yield "survives", {"n": n, "pn": 0}
    D = DIGITS
    for fam, (who, kind) in FAMILIES.items():
        if kind == "normal":
            yield "survives_family", {"family": fam, "lens": [2, 2], "alpha": "0123456789#"}
            if not q:
                yield "survives_family", {"family": fam, "lens": [3, 3], "alpha": "0123456789#"}
        elif kind == "status":
            yield "survives_family", {"family": fam, "lens": [3], "alpha": "0123456789#"}
        else:
            yield "survives_family", {"family": fam, "lens": [2, 2, 1], "alpha": D}
            yield "survives_family", {"family": fam, "lens": [0, 1, 1, 1, 1, 1], "alpha": "01#" if q else "0125#"}
            if not q:
                yield "survives_family", {"family": fam, "lens": [2, 3, 2], "alpha": D}
    for n in (4, 11, 25) if q else (4, 5, 8, 11, 25, 400):
        yield "survives_huge", {"digits": n}
    for how in ("raise", "other", "call"):
        yield "bad_callback", {"ncb": 3, "nev": 2, "how": how}
    yield "slow_callback", {"nev": 2 if q else 3}


# ------------------------------------------------------------------ P21
ITEMS = {"1": Light, "2": Automation, "7": Camera, "18": EnergyManagement}


def cache(ctx, n):
    """two requests with symbolic addresses"""
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "1", SessionType.EventSession, loop=lp)
    o = Client("127.0.0.1", 20000, "1", SessionType.CommandSession, loop=lp)
    whos = ["1", "2", "7"]
    # what does not depend on an address: the gateway
    g = c.get_item(Who("13"), Where(""), client=o)
    ctx.check(type(g) is Gateway and g.client is o, "the gateway is an item of its own class")
    ctx.check(c.get_item(Who("13"), Where(""), client=c) is g, "and there is one of it")
    w1, w2 = ctx.choice("w1", whos), ctx.choice("w2", whos)
    a = tag_text(ctx, "a", n)
    b = tag_text(ctx, "b", n)
    x = c.get_item(Who(w1), Where(a), client=o)
    y = c.get_item(Who(w2), Where(b), client=o)
    ctx.check(ctx.iff(x is y, ctx.all_of([w1 == w2, a == b])), "one item per WHO and WHERE")
    ctx.check(type(x) is ITEMS[w1] and type(y) is ITEMS[w2], "of the class of its WHO")
    ctx.check(ctx.all_of([x.where.string == a, y.where.string == b]), "with its own address")
    ctx.check(x.client is o, "bound to the client it was given")
    z = c.get_item(Who(w1), Where(a), client=c)
    ctx.check(z is x and z.client is o, "the cached item is returned again")
    ctx.reach("cached")


def cache_energy(ctx, n):
    """energy items, next to the other items of like addresses"""
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "1", SessionType.EventSession, loop=lp)
    form = ctx.choice("form", ["1{}", "5{}", "7{}#0"])
    a = form.format(ctx.digits("a", n))
    b = form.format(ctx.digits("b", n))
    x = c.get_item(Who("18"), Where(a), client=c)
    y = c.get_item(Who("18"), Where(b), client=c)
    z = c.get_item(Who("1"), Where(a), client=c)
    ctx.check(type(x) is EnergyManagement and type(y) is EnergyManagement and type(z) is Light, "of the class of its WHO")
    ctx.check(ctx.iff(x is y, a == b), "one item per WHO and WHERE")
    ctx.check(z is not x and z is not y, "items of another WHO are others")
    ctx.check(ctx.all_of([x.where.string == a, y.where.string == b, z.where.string == a]), "with its own address")
    ctx.check(c.get_item(Who("18"), Where(a), client=c) is x, "the cached item is returned again")
    ctx.reach("cached energy")


def cache_unknown(ctx):
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "1", SessionType.EventSession, loop=lp)
    w = ctx.choice("w", ["0", "3", "4", "5", "6", "8", "14", "15", "16", "17", "22", "24", "25", "1001"])
    a = ctx.digits("a", 2)
    try:
        c.get_item(Who(w), Where(a), client=c)
    except KeyError:
        ctx.reach("unsupported")
    else:
        ctx.fail("an unsupported WHO raises KeyError")


def events_share(ctx, n):
    """the events of one address reach callbacks with one item object"""
    got = []

    async def cb(item, on):
        got.append(item)
    Light.on_status_change(cb)
    lp, c, tr, t = listen(ctx)
    a = ctx.digits("a", n)
    b = ctx.digits("b", n)
    tr.feed(("*1*1*" + a + "##").encode())
    tr.feed(("*1*0*" + b + "##").encode())
    lp.settle()
    ctx.check(len(got) == 2, "both events are dispatched")
    ctx.check(ctx.iff(got[0] is got[1], a == b), "events of one address share their item")
    ctx.check(c.get_item(Who("1"), Where(a), client=c) is got[0], "which is the client's cached item")
    ctx.reach("shared")


def two_caches(ctx, n):
    """two clients: each has its own items"""
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "1", SessionType.EventSession, loop=lp)
    d = Client("127.0.0.1", 20001, "1", SessionType.EventSession, loop=lp)
    w1 = ctx.choice("w1", ["1", "2", "7"])
    a, b = ctx.digits("a", n), ctx.digits("b", n)
    x = c.get_item(Who(w1), Where(a), client=c)
    y = d.get_item(Who(w1), Where(b), client=d)
    ctx.check(x is not y, "items are not shared between clients")
    ctx.check(x.client is c and y.client is d, "each is bound to its own client")
    ctx.reach("two clients")


def rebind(ctx, n):
    """an item commands through the client it is given"""
    lp = ctx.loop()
    _, c, tc = connect(ctx, loop=lp)
    _, d, td = connect(ctx, loop=lp)
    w1, a = ctx.choice("w1", ["1", "2"]), tag_text(ctx, "a", n)
    x = c.get_item(Who(w1), Where(a), client=c)
    y = c.get_item(Who(w1), Where("99999"), client=c)
    x.client = d
    ctx.check(x.client is d and y.client is c, "giving an item another client changes that item alone")
    ctx.check(c.get_item(Who(w1), Where(a), client=c) is x, "and it stays the item of its address")
    for it, tr, other, txt in ((x, td, tc, a), (y, tc, td, "99999")):
        n0 = len(other.sent)
        tr.on_write = lambda data: tr.feed_later(ACK)
        k, v = outcome(lp.drive(it.turn_on() if w1 == "1" else it.up()))
        tr.on_write = None
        ctx.check(k == "value" and ctx.same(tr.sent[-1], f"*{w1}*1*{txt}##".encode()), "its commands go through its client")
        ctx.check(len(other.sent) == n0, "and no other")
    ctx.reach("rebound")


def many_items(ctx, k):
    """a long history: no item is forgotten or replaced"""
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "1", SessionType.EventSession, loop=lp)
    w = ctx.choice("w", ["1", "2", "7"])
    a = ctx.digits("a", 2)
    first = c.get_item(Who(w), Where(a), client=c)
    got = [c.get_item(Who("1" if i % 2 else "2"), Where(str(100 + i)), client=c) for i in range(k)]
    ctx.check(c.get_item(Who(w), Where(a), client=c) is first, "the first item is still the same")
    ctx.check(all(c.get_item(Who("1" if i % 2 else "2"), Where(str(100 + i)), client=c) is g for i, g in enumerate(got)),
              "every item is still the same")
    ctx.check(len(set(map(id, got))) == k, "and they are all different")
    ctx.reach("many items")


def p21(tier):
    yield "two_caches", {"n": 2}
    yield "rebind", {"n": 2}
    yield "many_items", {"k": 300 if tier == "quick" else 2000}
    for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
        yield "cache", {"n": n}
    yield "cache_unknown", {}
    for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
        yield "cache_energy", {"n": n}
    yield "events_share", {"n": 2}


# ------------------------------------------------------------------ P22
def ends(ctx, how, pending):
    """the connection ends at a symbolic point of an event history"""
    calls = []

    async def cb(item, on):
        calls.append(on)
    Light.on_status_change(cb)
    lp, c, tr, t = listen(ctx)
    whats = [ctx.digits(f"v{i}", 1) for i in range(pending)]
    at = ctx.choice("at", range(pending + 1))
    for i in range(at):
        lp.call_at(1.0 + i, tr.feed, ("*1*" + whats[i] + "*12##").encode())
    when = 0.5 + at
    exc = None
    if how == "lost":
        lp.call_at(when, tr.lose)
    elif how == "error":
        exc = ConnectionResetError("reset")
        lp.call_at(when, tr.lose, exc)
    elif how == "bad data":
        lp.call_at(when, tr.feed, b"garbage##")
    else:
        lp.call_at(when, lambda: lp.create_task(c.close()))
    lp.settle()
    ctx.check(len(calls) == at, "every event before the end is dispatched")
    ctx.check(ctx.all_of([ctx.iff(x, w != "0") for x, w in zip(calls, whats)]), "in order")
    ctx.check(t.done(), "the loop ends when the connection does")
    ctx.check(outcome(t)[0] == "value", "without an error")
    ctx.check(tr.is_closing(), "and the connection is closed")
    ctx.reach("ended " + how)


def queued(ctx, k, how):
    """events received together with the end of the connection: none of them is lost"""
    calls = []

    async def cb(item, on):
        calls.append((item.where.string, on))
    Light.on_status_change(cb)
    lp, c, tr, t = listen(ctx)
    ev = [(ctx.digits(f"w{i}", 2), ctx.digits(f"v{i}", 1)) for i in range(k)]
    apart = ctx.flag("apart")

    def arrive():
        for w, v in ev:
            if apart:
                tr.feed(f"*1*{v}*{w}##".encode())
        if not apart:
            tr.feed("".join(f"*1*{v}*{w}##" for w, v in ev).encode())
        if how == "bad data":
            tr.feed(b"garbage##")
        else:
            tr.lose(ConnectionResetError("reset") if how == "error" else None)
    lp.call_at(1.0, arrive)
    lp.settle()
    ctx.check(len(calls) == k, "every event received before the connection ended is dispatched")
    ctx.check(ctx.all_of([ctx.all_of([a == w, ctx.iff(x, v != "0")]) for (a, x), (w, v) in zip(calls, ev)]), "in order")
    ctx.check(t.done() and outcome(t)[0] == "value", "and the loop ends, without an error")
    ctx.reach("queued " + how)


def closed_by_callback(ctx, k, wait):
    """a callback closes the client, or the client is closed at the moment an event comes"""
    calls = []
    d = [ctx.digits(f"d{i}", 1) for i in range(k)]
    at = ctx.choice("at", range(k))
    how = ctx.choice("how", ["callback", "before", "after"])
    apart = ctx.flag("apart")
    lp, c, tr, t = listen(ctx)
    closed = []

    async def cb(item, on):
        calls.append(on)
        if how == "callback" and len(calls) == at + 1:
            if wait:
                await asyncio.sleep(wait)
            await c.close()
            closed.append(1)
    Light.on_status_change(cb)

    def arrive():
        for i, x in enumerate(d):
            if how == "before" and i == at:
                closed.append(lp.create_task(c.close()))
            if apart:
                lp.call_soon(tr.feed, f"*1*{x}*12##".encode())
            else:
                tr.feed(f"*1*{x}*12##".encode())
            if how == "after" and i == at:
                closed.append(lp.create_task(c.close()))
    lp.call_at(1.0, arrive)
    lp.settle()
    ctx.check(len(closed) == 1, "close() completes")
    ctx.check(t.done() and outcome(t)[0] == "value", "the loop of a client closed amid its events ends, without an error")
    ctx.check(len(calls) <= k and ctx.all_of([ctx.iff(x, w != "0") for x, w in zip(calls, d)]),
              "no event is dispatched twice or out of order")
    ctx.check(tr.is_closing(), "and the connection is closed")
    tr2 = start(lp, c)
    t2 = lp.create_task(c.loop())
    n = len(calls)
    how = "no more"
    tr2.feed(b"*1*0*12##")
    lp.settle()
    ctx.check(len(calls) == n + 1 and calls[-1] == False and not t2.done(), "started again, it dispatches its own events")
    ctx.reach("closed amid events")


def restart(ctx, rounds, session):
    """start, use, close, start again"""
    kind = SessionType.CommandSession if session == "9" else SessionType.EventSession
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "12345", kind, loop=lp)
    calls = []

    async def cb(item, on):
        calls.append(on)
    Light.on_status_change(cb)
    seen = 0
    for r in range(rounds):
        tr = start(lp, c)
        ctx.check(len(lp.transports) == r + 1, "a new connection is made")
        d = ctx.digits(f"d{r}", 1)
        left = ctx.choice(f"left{r}", ["nothing", "partial", "unread", "paused"])
        if session == "9":
            tr.on_write = lambda x: tr.feed_later(ACK)
            k, v = outcome(lp.drive(Light(c, "1" + d).turn_on()))
            ctx.check(k == "value" and tr.sent == [("*1*1*1" + d + "##").encode()], "the session works")
            tr.on_write = None
        else:
            t = lp.create_task(c.loop())
            tr.feed(("*1*" + d + "*12##").encode())
            lp.settle()
            seen += 1
            ctx.check(len(calls) == seen and ctx.iff(calls[-1], d != "0"), "events of the new connection are dispatched")
        if left == "partial":
            tr.feed(b"*1*1*")       # the beginning of a frame that never ends
        elif left == "unread" and session == "9":
            tr.feed(b"*1*1*77##*#*0##")     # messages nobody reads
        elif left == "paused":
            tr.protocol.pause_writing()
        lost = ctx.flag(f"lost{r}")
        if lost:
            tr.lose()
            lp.settle()
        k, v = outcome(lp.drive(c.close()))
        ctx.check(k == "value", "close() succeeds")
        lp.settle()
        if session != "9":
            ctx.check(t.done() and outcome(t)[0] == "value", "the loop of the closed connection has ended, without an error")
    ctx.reach("restarted " + session)


def many_restarts(ctx, k, session):
    """many rounds of start and close"""
    kind = SessionType.CommandSession if session == "9" else SessionType.EventSession
    lp = ctx.loop()
    c = Client("127.0.0.1", 20000, "12345", kind, loop=lp)
    calls = []

    async def cb(item, on):
        calls.append((item.where.string, on))
    Light.on_status_change(cb)
    d = ctx.digits("d", 2)
    for r in range(k):
        tr = start(lp, c)
        ctx.check(len(lp.transports) == r + 1, "a new connection is made")
        if session == "9":
            tr.on_write = lambda x: tr.feed_later(ACK)
            k_, v = outcome(lp.drive(Light(c, d).turn_on()))
            ctx.check(k_ == "value" and tr.sent == [("*1*1*" + d + "##").encode()], "the session works")
        else:
            t = lp.create_task(c.loop())
            tr.feed(("*1*1*" + d + "##").encode())
            lp.settle()
            ctx.check(len(calls) == r + 1 and calls[-1] == (d, True), "events of the new connection are dispatched")
        if r % 3 == 0:
            tr.lose()
            lp.settle()
        k_, v = outcome(lp.drive(c.close()))
        ctx.check(k_ == "value", "close() succeeds")
    ctx.reach("many restarts")


def p22(tier):
    q = tier == "quick"
    for s in "91":
        yield "many_restarts", {"k": 20 if q else 200, "session": s}
    for how in ("lost", "error", "close", "bad data"):
        yield "ends", {"how": how, "pending": 2 if q else 3}
    for how in ("lost", "error", "bad data"):
        for k in (2, 5) if q else (2, 5, 40):
            yield "queued", {"k": k, "how": how}
    for wait in (0, 1):
        yield "closed_by_callback", {"k": 2 if q else 3, "wait": wait}
    for s in "91":
        yield "restart", {"rounds": 3 if q else 4, "session": s}


SPEC = {
    "P12": {"cases": p12, "bounds": "every history of 3 (thorough 4) calls out of start, close, send, item command, read, "
            "event loop on command and event sessions; any message of 6 or 8 (thorough 6..9) characters sent with and "
            "without force on an event session; two clients opened and closed in any order (3 steps); every "
            "operation after a handshake failing in any of 13 ways or cancelled at three points", "outside": "longer histories; concurrent calls",
            "reach": ["sent", "item command", "read", "loop", "refused send", "refused item", "refused read",
                      "refused loop", "forced", "not forced", "own session",
                      "refused after a failure", "started after a failure"]},
    "P20": {"cases": p20, "bounds": "any well-formed frame of 3..8 (thorough 10) characters, and frames of every dispatched "
            "family with symbolic tags of the listed lengths (up to 4 values), or with numbers of 4, 11 or 25 (thorough up to 400) digits at 33 places, followed by a known event; every "
            "combination of three callbacks failing in six ways (errors, cancellation, the call itself) over two events; callbacks outlasting the next events by up to two hours; silences of up to a day; a history of 400 "
            "(thorough 1000) frames with failing callbacks",
            "outside": "longer frames; callbacks that block the event loop",
            "reach": ["survived"] + ["survived " + f for f in FAMILIES] + ["failing callbacks " + h for h in ("raise", "other", "call")] + ["slow callback", "many events", "silence", "survived huge"]},
    "P21": {"cases": p21, "bounds": "every pair of addresses of 1..2 (thorough 4) characters and WHO out of 1, 2, 7; energy addresses of the three documented kinds; the gateway; every "
            "unsupported WHO; two clients; 300 (thorough 2000) items", "outside": "longer addresses",
            "reach": ["cached", "unsupported", "shared", "two clients", "many items", "rebound", "cached energy"]},
    "P22": {"cases": p22, "bounds": "the end of the connection (loss, error, malformed data, close()) at every point of a "
            "history of 2 (thorough 3) events; 3 (thorough 4) rounds of start, use, nothing or a half frame or unread messages or a paused transport, optional loss, close; 20 (thorough 200) restarts; "
            "2 or 5 (thorough 40) events received at the moment of the loss; the client closed by any one of 2 (thorough 3) callbacks or at the moment of any event",
            "outside": "longer histories; events still queued when the client is closed",
            "reach": ["ended lost", "ended error", "ended close", "ended bad data", "restarted 9", "restarted 1",
                      "queued lost", "queued error", "queued bad data", "many restarts", "closed amid events"]},
}
